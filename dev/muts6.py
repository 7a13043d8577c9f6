# Masstree rows (F04): (id, property, file, old, new, n-th occurrence)
K="MassTree/kvrow.hh"; B="MassTree/value_bag.hh"; A="MassTree/value_array.cc"; V="MassTree/value_versioned_array.cc"; VH="MassTree/value_versioned_array.hh"; S="MassTree/value_string.hh"
M=[
("f04-put-retire-first","F04",K,"        value = updated;\n        old_value->deallocate_rcu_after_update(firstreq, lastreq, ti);","        old_value->deallocate_rcu_after_update(firstreq, lastreq, ti);\n        value = updated;",1),
("f04-put-dealloc-now","F04",B,"inline void value_bag<O>::deallocate_rcu_after_update(const Json*, const Json*, ALLOC& ti) {\n    deallocate_rcu(ti);","inline void value_bag<O>::deallocate_rcu_after_update(const Json*, const Json*, ALLOC& ti) {\n    deallocate(ti);",1),
("f04-put-full-retire","F04",A,"    for (; first != last && first[0].as_u() < unsigned(ncol_); first += 2)\n        deallocate_column_rcu(cols_[first[0].as_u()], ti);\n    ti.deallocate_rcu","    for (; first != last; first += 2)\n        if (first[0].as_u() < unsigned(ncol_)) deallocate_column(cols_[first[0].as_u()], ti);\n    ti.deallocate_rcu",1),
#("f04-get-refetch","F04",K,"        req.resize(2);\n        emit_fields(lp.value(), req, ti);","        req.resize(2);\n        (void) lp.find_unlocked(ti);\n        if (row_is_marker(lp.value())) return;\n        for (size_t i = 0; i + 1 < f_.size(); ++i) ;\n        emit_fields(lp.value(), req, ti);",1),
("f04-remove-finish0","F04",K,"    lp.finish(-1, ti);\n    // retire","    lp.finish(found ? -1 : 0, ti);\n    // retire",1),
("f04-arr-noextendzero","F04",A,"    memset(row->cols_ + ncol_, 0, (ncol - ncol_) * sizeof(cols_[0]));\n","    if (ncol - ncol_ > 1) memset(row->cols_ + ncol_, 0, (ncol - ncol_ - 1) * sizeof(cols_[0]));\n",1),
("f04-arr-ncol-last","F04",A,"unsigned ncol = std::max(int(ncol_), int(last[-2].as_i()) + 1);","unsigned ncol = ncol_ && last - first == 2 ? std::max(int(ncol_), int(first[0].as_i()) + 1) : int(last[-2].as_i()) + 1;",1),
("f04-bag-fast-len","F04",B,"ncol == d_.ncol_ && sz == size() && first + 2 == last","ncol == d_.ncol_ && sz == size()",1),
("f04-bag-fast-inplace","F04",B,"        memcpy(row->d_.s_ + d_.pos_[first[0].as_u()],\n               first[1].as_s().data(), first[1].as_s().length());\n        return row;","        memcpy(const_cast<char*>(d_.s_) + d_.pos_[first[0].as_u()],\n               first[1].as_s().data(), first[1].as_s().length());\n        memcpy(row->d_.s_, d_.s_, sz - sizeof(kvtimestamp_t));\n        return row;",1),
("f04-bag-delta","F04",B,"            if (delta == 0)\n","            if (delta == 0 || col + 1 == end_col)\n",1),
("f04-bag-emptycols","F04",B,"            row->d_.pos_[col] = sz;\n            ++col;\n        }\n\n        if (col","            row->d_.pos_[col] = d_.pos_[d_.ncol_];\n            ++col;\n        }\n\n        if (col",1),
#("f04-bag-sz","F04",B,"        if (idx < d_.ncol_)\n            sz -= column_length(idx);","        if (idx <= d_.ncol_)\n            sz -= idx < d_.ncol_ ? column_length(idx) : 0;\n        if (idx < d_.ncol_) ;",1),
("f04-ver-nodirty","F04",V,"        ver_.setdirty();\n        fence();","        fence();",1),
("f04-ver-late-dirty","F04",V,"    if (row == this) {\n        ver_.setdirty();\n        fence();\n    }\n    if (row->ncol_ < ncol)\n        row->ncol_ = ncol;\n\n    for (; first != last; first += 2) {\n        unsigned idx = first[0].as_u();","    if (row->ncol_ < ncol)\n        row->ncol_ = ncol;\n\n    for (; first != last; first += 2) {\n        unsigned idx = first[0].as_u();\n        if (row == this && first + 2 == last) { ver_.setdirty(); fence(); }",1),
("f04-ver-nobump","F04",V,"        ver_.clearandbump();","        ver_.clear();",1),
("f04-snap-norecheck","F04",V,"        if (!v1.has_changed(v2))\n","        if (!v1.has_changed(v2) || f.size() == 2)\n",1),
("f04-snap-v1once","F04",V,"        v1 = v2;","",1),
("f04-snap-ncol","F04",V,"    storage->ncol_ = ncol_;\n    rowversion v1","    if (storage->ncol_ < ncol_) storage->ncol_ = ncol_;\n    rowversion v1",1),
("f04-snap-unstable","F04",V,"rowversion v1 = ver_.stable();","rowversion v1 = ver_;",1),
("f04-snap-v2unstable","F04",V,"rowversion v2 = ver_.stable();","rowversion v2 = ver_;",1),
("f04-va-cap","F04",V,"ncol > ncol_cap_ || always_copy","ncol > ncol_cap_ + 1 || always_copy",1),
("f04-va-copyfull","F04",V,"memcpy(row->cols_, cols_, sizeof(cols_[0]) * ncol_);","memcpy(row->cols_, cols_, sizeof(cols_[0]) * (ncol_ > 2 ? 2 : ncol_));",1),
("f04-va-hide","F04",VH,"if (unsigned(i) < unsigned(ncol_) && cols_[i])","if (unsigned(i) <= unsigned(ncol_) && cols_[i])",1),
("f04-str-cut","F04",S,"        if (idx == 0)\n            cut = length;","        if (index_offset(idx) == 0)\n            cut = length;",1),
("f04-str-vallen","F04",S,"        vallen = std::max(vallen, index_offset(idx) + length);","        vallen = index_offset(idx) + length;",1),
("f04-scan-marker-key","F04",K,"        q_.scankeypos_ += key.length();","        if (nleft_ > 1) q_.scankeypos_ += key.length();",1),
]
