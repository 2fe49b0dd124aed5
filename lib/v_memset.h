/* include after all other headers: clearing exactly one typed object is executed as an assignment of the zero value of its type */
#define V_NOTVOID(p) _Generic((p), void *: (char *)(p), default: (p))
#define memset(p, c, n) ({ if ((c) == 0 && (n) == sizeof(*V_NOTVOID(p))) { __typeof__(*V_NOTVOID(p)) v_z_ = {0}; *(__typeof__(v_z_) *)(p) = v_z_; } else (memset)((p), (c), (n)); (void *)(p); })

