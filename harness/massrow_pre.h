// the versioned row type specialises query_helper before kvrow.hh declares it
#ifdef __cplusplus
template <typename R> struct query_helper;
#endif
