/* Arbitrary values of each variable type. */
#ifndef VALS_H
#define VALS_H
#include "h.h"
static const enum cv_type VT[] = {CGV_INT8, CGV_INT16, CGV_INT32, CGV_INT64, CGV_UINT8, CGV_UINT16, CGV_UINT32, CGV_UINT64, CGV_DEC64, CGV_BOOL,
  CGV_REST, CGV_STRING, CGV_INTERFACE, CGV_IPV4ADDR, CGV_IPV4PFX, CGV_IPV6ADDR, CGV_IPV6PFX, CGV_MACADDR, CGV_URL, CGV_UUID, CGV_TIME, CGV_VOID, CGV_EMPTY};
#define NVT 23
#define VT_ISTR(t) ((t) == CGV_REST || (t) == CGV_STRING || (t) == CGV_INTERFACE)
static inline void any_sign(int neg) { int k = sym_arg("neg", 2); if (k == 2) (void)sym_concretize(neg); else sym_assume(neg == k); }
/* give cv an arbitrary value of its type; L bounds string lengths; mode restricts expensive types */
static inline void any_val(cg_var *cv, int L, int mode) {
  char s[32];
  switch (cv_type_get(cv)) {
  case CGV_INT8: { int8_t v; sym_bytes(&v, 1, "v"); any_sign(v < 0); cv_int8_set(cv, v); break; }
  case CGV_INT16: { int16_t v; sym_bytes(&v, 2, "v"); any_sign(v < 0); cv_int16_set(cv, v); break; }
  case CGV_INT32: { int32_t v; sym_bytes(&v, 4, "v"); any_sign(v < 0); cv_int32_set(cv, v); break; }
  case CGV_INT64: { int64_t v; sym_bytes(&v, 8, "v"); any_sign(v < 0); cv_int64_set(cv, v); break; }
  case CGV_UINT8: { uint8_t v; sym_bytes(&v, 1, "v"); cv_uint8_set(cv, v); break; }
  case CGV_UINT16: { uint16_t v; sym_bytes(&v, 2, "v"); cv_uint16_set(cv, v); break; }
  case CGV_UINT32: { uint32_t v; sym_bytes(&v, 4, "v"); cv_uint32_set(cv, v); break; }
  case CGV_UINT64: { uint64_t v; sym_bytes(&v, 8, "v"); cv_uint64_set(cv, v); break; }
  case CGV_DEC64: { int64_t v; sym_bytes(&v, 8, "v"); any_sign(v < 0); cv_dec64_n_set(cv, 1 + mode); cv_dec64_i_set(cv, v); break; }
  case CGV_BOOL: cv_bool_set(cv, sym_pick("b", 2)); break;
  case CGV_REST: case CGV_STRING: case CGV_INTERFACE: { int n = sym_pick("n", L + 1); sym_str(s, n, "s"); cv_string_set(cv, s); break; }
  case CGV_IPV4ADDR: case CGV_IPV4PFX: {
    struct in_addr a;
    if (mode) { sym_bytes(&a, 4, "a"); } else { a.s_addr = htonl(0x0a000102); sym_bytes((char *)&a + sym_pick("o", 4), 1, "a"); }
    cv_ipv4addr_set(cv, &a);
    if (cv_type_get(cv) == CGV_IPV4PFX) cv_ipv4masklen_set(cv, sym_u8("m", 0, 32)); else cv_ipv4masklen_set(cv, 32);
    break;
  }
  case CGV_IPV6ADDR: case CGV_IPV6PFX: {
    static const char *P[] = {"::", "2001:db8::1", "1:2:3:4:5:6:7:8", "0:0:1::", "fe80::1:0:0:2", "::ffff:1.2.3.4", "1:0:2:0:0:3:0:4"};
    char *reason = NULL;
    char t[64];
    snprintf(t, sizeof t, "%s%s", P[sym_pick("p", 7)], cv_type_get(cv) == CGV_IPV6PFX ? "/64" : "");
    sym_assert(cv_parse1(t, cv, &reason) == 1, "valid IPv6 text accepted");
    if (mode) { struct in6_addr *a = cv_ipv6addr_get(cv); sym_bytes((char *)a + 2 * sym_pick("g", 8), 2, "g"); }
    break;
  }
  case CGV_MACADDR: { static const unsigned char M[6] = {0, 0x9a, 0x0f, 0xf0, 5, 0xff}; int o = sym_pick("o", 5); memcpy(cv_mac_get(cv), M, 6); sym_bytes(cv_mac_get(cv) + o, 2, "mac"); break; }
  case CGV_UUID: { unsigned char u[16]; for (int i = 0; i < 16; i++) u[i] = i * 29; sym_bytes(u + sym_pick("o", 16), 1, "u"); cv_uuid_set(cv, u); break; }
  case CGV_URL: {
    /* fields without the separators that delimit them */
    int n;
    n = sym_pick("np", L) + 0; sym_str(s, n, "pr"); for (int i = 0; i < n; i++) sym_assume(!in_set(s[i], ":@/")); cv_urlproto_set(cv, s);
    n = sym_pick("nu", L); sym_str(s, n, "us"); for (int i = 0; i < n; i++) sym_assume(!in_set(s[i], ":@/")); cv_urluser_set(cv, s);
    n = sym_pick("nw", L); sym_str(s, n, "pw"); for (int i = 0; i < n; i++) sym_assume(!in_set(s[i], "@/")); cv_urlpasswd_set(cv, s);
    n = sym_pick("na", L); sym_str(s, n, "ad"); for (int i = 0; i < n; i++) sym_assume(!in_set(s[i], "@/")); cv_urladdr_set(cv, s);
    n = sym_pick("nt", L); sym_str(s, n, "pa"); for (int i = 0; i < n; i++) sym_assume(!in_set(s[i], "@")); cv_urlpath_set(cv, s);
    break;
  }
  case CGV_TIME: {
    struct timeval tv;
    static const long D[] = {0, 951782400 /* 2000-02-29 */, 1221955200, 4102444799, 1230767999, 4233600000};
    uint32_t us;
    sym_bytes(&us, 4, "us");
    sym_assume(us < 1000000);
    tv.tv_sec = D[sym_pick("d", 6)];
    if (mode) tv.tv_sec += sym_u8("sec", 0, 255) * 97;
    tv.tv_usec = us;
    cv_time_set(cv, tv);
    break;
  }
  case CGV_VOID: { void *p; uint64_t x; sym_bytes(&x, 8, "v"); p = (void *)x; cv_void_set(cv, p); break; }
  default: break;
  }
}
/* do both hold the same value? (independent of cv_cmp) */
static inline int same_val(cg_var *a, cg_var *b) {
  if (cv_type_get(a) != cv_type_get(b)) return 0;
  switch (cv_type_get(a)) {
  case CGV_INT8: return cv_int8_get(a) == cv_int8_get(b);
  case CGV_INT16: return cv_int16_get(a) == cv_int16_get(b);
  case CGV_INT32: return cv_int32_get(a) == cv_int32_get(b);
  case CGV_INT64: return cv_int64_get(a) == cv_int64_get(b);
  case CGV_UINT8: return cv_uint8_get(a) == cv_uint8_get(b);
  case CGV_UINT16: return cv_uint16_get(a) == cv_uint16_get(b);
  case CGV_UINT32: return cv_uint32_get(a) == cv_uint32_get(b);
  case CGV_UINT64: return cv_uint64_get(a) == cv_uint64_get(b);
  case CGV_DEC64: return (cv_dec64_i_get(a) == cv_dec64_i_get(b)) & (cv_dec64_n_get(a) == cv_dec64_n_get(b));
  case CGV_BOOL: return cv_bool_get(a) == cv_bool_get(b);
  case CGV_REST: case CGV_STRING: case CGV_INTERFACE:
    if (!cv_string_get(a) || !cv_string_get(b)) return cv_string_get(a) == cv_string_get(b);
    return eqstr(cv_string_get(a), cv_string_get(b));
  case CGV_IPV4ADDR: return eqmem(cv_ipv4addr_get(a), cv_ipv4addr_get(b), 4);
  case CGV_IPV4PFX: return eqmem(cv_ipv4addr_get(a), cv_ipv4addr_get(b), 4) & (cv_ipv4masklen_get(a) == cv_ipv4masklen_get(b));
  case CGV_IPV6ADDR: return eqmem(cv_ipv6addr_get(a), cv_ipv6addr_get(b), 16);
  case CGV_IPV6PFX: return eqmem(cv_ipv6addr_get(a), cv_ipv6addr_get(b), 16) & (cv_ipv6masklen_get(a) == cv_ipv6masklen_get(b));
  case CGV_MACADDR: return eqmem(cv_mac_get(a), cv_mac_get(b), 6);
  case CGV_UUID: return eqmem(cv_uuid_get(a), cv_uuid_get(b), 16);
  case CGV_URL: return eqstr(cv_urlproto_get(a), cv_urlproto_get(b)) && eqstr(cv_urluser_get(a), cv_urluser_get(b)) && eqstr(cv_urlpasswd_get(a), cv_urlpasswd_get(b)) && eqstr(cv_urladdr_get(a), cv_urladdr_get(b)) && eqstr(cv_urlpath_get(a), cv_urlpath_get(b));
  case CGV_TIME: { struct timeval x = cv_time_get(a), y = cv_time_get(b); return (x.tv_sec == y.tv_sec) & (x.tv_usec == y.tv_usec); }
  case CGV_VOID: return cv_void_get(a) == cv_void_get(b);
  default: return 1;
  }
}
#endif
