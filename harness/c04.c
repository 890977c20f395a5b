/* C04: bool, address, MAC, UUID, URL and time texts are accepted by their grammar only. */
#include <errno.h>
#include <arpa/inet.h>
#include "vals.h"
static int dig(char c) { return c >= '0' && c <= '9'; }
static int hexv(char c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int num(const char *s, int n) { int v = 0; for (int i = 0; i < n; i++) { if (!dig(s[i])) return -1; v = v * 10 + s[i] - '0'; } return v; }
/* an integer literal in C notation with a value in 0..max (the prefix length) */
static int mask(const char *s, int max) {
  int neg = 0, base = 10, any = 0;
  long v = 0;
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
  if (*s == '0') {
    if ((s[1] == 'x' || s[1] == 'X') && hexv(s[2]) >= 0) { base = 16; s += 2; } else base = 8;
  }
  for (; *s; s++, any = 1) {
    int d = hexv(*s);
    if (d < 0 || d >= base) return -1;
    v = v * base + d;
    if (v > max) v = max + 1;
  }
  if (!any || v > max || (neg && v)) return -1;
  return v;
}
static int ip4(const char *s, unsigned char *a) {
  for (int g = 0; g < 4; g++) {
    int n = 0, v = 0;
    while (n < 4 && dig(s[n])) { v = v * 10 + s[n] - '0'; n++; }
    if (n == 0 || n > 3 || v > 255 || (n > 1 && s[0] == '0')) return 0;
    a[g] = v;
    s += n;
    if (g < 3) { if (*s != '.') return 0; s++; }
  }
  return *s == 0;
}
static int m6;
static char mine[128], *fld[5];
static void copy(const char *s) { memcpy(mine, s, strlen(s) + 1); }
/* does s denote a value of this type? If so put it in e. */
static int ref(const char *s, cg_var *e) {
  size_t n = strlen(s);
  switch (cv_type_get(e)) {
  case CGV_BOOL: {
    static const char *T[] = {"true", "on", "enable"}, *F[] = {"false", "off", "disable"};
    int k = 3;
    for (int i = 0; i < k; i++) { if (eqstr(s, T[i])) { cv_bool_set(e, 1); return 1; } if (eqstr(s, F[i])) { cv_bool_set(e, 0); return 1; } }
    return 0;
  }
  case CGV_MACADDR: {
    unsigned char *m = (unsigned char *)cv_mac_get(e);
    if (n != 17) return 0;
    for (int g = 0; g < 6; g++) {
      int h = hexv(s[3 * g]), l = hexv(s[3 * g + 1]);
      if (h < 0 || l < 0 || (g < 5 && s[3 * g + 2] != ':')) return 0;
      m[g] = 16 * h + l;
    }
    return 1;
  }
  case CGV_UUID: {
    unsigned char u[16];
    int k = 0;
    if (n != 36) return 0;
    for (int i = 0; i < 36;) {
      if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return 0; i++; continue; }
      int h = hexv(s[i]), l = hexv(s[i + 1]);
      if (h < 0 || l < 0) return 0;
      u[k++] = 16 * h + l;
      i += 2;
    }
    cv_uuid_set(e, u);
    return 1;
  }
  case CGV_IPV4ADDR: { unsigned char a[4]; if (!ip4(s, a)) return 0; cv_ipv4addr_set(e, (struct in_addr *)a); return 1; }
  case CGV_IPV6ADDR: { unsigned char a[16]; if (inet_pton(AF_INET6, s, a) != 1) return 0; memcpy(cv_ipv6addr_get(e), a, 16); return 1; }
  case CGV_IPV4PFX: case CGV_IPV6PFX: {
    int v6 = cv_type_get(e) == CGV_IPV6PFX, m;
    unsigned char a[16];
    copy(s);
    char *p = mine;
    while (*p && *p != '/') p++;
    if (!*p) return 0;
    *p++ = 0;
    if ((m = mask(p, v6 ? 128 : 32)) < 0) return 0;
    if (v6) {
      if (inet_pton(AF_INET6, mine, a) != 1) return 0;
      memcpy(cv_ipv6addr_get(e), a, 16);
      m6 = m;
    } else {
      if (!ip4(mine, a)) return 0;
      cv_ipv4addr_set(e, (struct in_addr *)a);
      cv_ipv4masklen_set(e, m);
    }
    return 1;
  }
  case CGV_URL: { /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
    char *p, *q;
    copy(s);
    for (p = mine; *p && *p != ':'; p++);
    if (p[0] != ':' || p[1] != '/' || p[2] != '/') return 0;
    *p = 0;
    fld[0] = mine; p += 3; fld[1] = fld[2] = fld[4] = "";
    for (q = p; *q && *q != '@'; q++);
    if (*q) {
      *q = 0;
      fld[1] = p;
      for (; *p && *p != ':'; p++);
      if (*p) { *p = 0; fld[2] = p + 1; }
      p = q + 1;
    }
    fld[3] = p;
    for (; *p && *p != '/'; p++);
    if (*p) { *p = 0; fld[4] = p + 1; }
    return 1;
  }
  case CGV_TIME: { /* YYYY-MM-DD(T| )hh:mm:ss[.u{1,6}][Z|(+|-)...] */
    static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    struct timeval tv;
    int us = 0;
    if (n < 19 || s[4] != '-' || s[7] != '-' || (s[10] != 'T' && s[10] != ' ') || s[13] != ':' || s[16] != ':') return 0;
    int Y = num(s, 4), M = num(s + 5, 2), D = num(s + 8, 2), h = num(s + 11, 2), m = num(s + 14, 2), c = num(s + 17, 2);
    if (Y < 1970 || Y > 2104 || M < 1 || M > 12 || D < 1 || h < 0 || h > 23 || m < 0 || m > 59 || c < 0 || c > 59) return 0;
    if (D > md[M - 1] + (M == 2 && (Y % 4 == 0) && (Y % 100 != 0 || Y % 400 == 0))) return 0;
    s += 19;
    if (*s == '.') {
      int k = 0;
      s++;
      while (k < 6 && dig(s[k])) us = us * 10 + s[k++] - '0';
      if (k == 0) return 0;
      s += k;
      for (; k < 6; k++) us *= 10;
    }
    if (*s == 'Z') s++; else if (*s == '+' || *s == '-') s = "";
    if (*s) return 0;
    int y = M <= 2 ? Y - 1 : Y, mp = (M + 9) % 12;
    long days = 365L * y + y / 4 - y / 100 + y / 400 + (153 * mp + 2) / 5 + D - 1 - 719468;
    tv.tv_sec = ((days * 24 + h) * 60 + m) * 60 + c;
    tv.tv_usec = us;
    cv_time_set(e, tv);
    return 1;
  }
  default: return 0;
  }
}
static const enum cv_type T4[] = {CGV_BOOL, CGV_MACADDR, CGV_UUID, CGV_IPV4ADDR, CGV_IPV4PFX, CGV_IPV6ADDR, CGV_IPV6PFX, CGV_URL, CGV_TIME};
static const char *TM[][8] = {
  {"true", "false", "on", "off", "enable", "disable", "TRUE", 0},
  {"00:9a:Bc:dF:12:34", "ff:ff:ff:ff:ff:ff", "00:9a:Bc:dF:12:3", "00:9a:Bc:dF:12:34:56", 0},
  {"f47ac10b-58cc-4372-a567-0e02b2c3d479", "00000000-0000-0000-0000-000000000000", 0},
  {"10.0.255.1", "1.2.3.4", "192.168.100.254", "1.2.3", "1.2.3.4.5", 0},
  {"10.0.255.1/24", "1.2.3.4/0", "0.0.0.0/32", "1.2.3.4/033", "1.2.3.4/0x2", 0},
  {"2001:db8::1", "1:2:3:4:5:6:7:8", "::", "::ffff:1.2.3.4", "fe80::", 0},
  {"2001:db8::1/64", "::/0", "1:2:3:4:5:6:7:8/128", "fe80::/129", 0},
  {"http://www.hubba.bubba/path", "ftp://u:p@h/a/b", "x://u@h", "a://b", "a://:w@/", 0},
  {"2008-09-21T18:57:21.003456Z", "1970-01-01 00:00:00", "2104-02-29T23:59:59.9", "2001-02-28T12:00:59+01:00", "2000-11-30T01:02:03Z", 0}};
static void judge(enum cv_type t, const char *s, const char *again) {
  uint64_t live0 = sym_live_bytes();
  cg_var *cv = cv_new(t), *e = cv_new(t), *c3;
  char *reason = NULL;
  if (again) sym_assert(cv_parse1(again, cv, NULL) == 1, "valid text accepted");
  int want = ref(s, e), r = cv_parse1(s, cv, &reason);
  sym_assert(r == 0 || r == 1, "no fatal error");
  sym_assert(r == want, "accepted exactly when well formed");
  sym_assert((r == 0) == (reason != NULL), "reason given exactly on refusal");
  if (r == 1 && want) {
    if (t == CGV_URL) {
      sym_assert(eqstr(cv_urlproto_get(cv), fld[0]), "protocol");
      sym_assert(eqstr(cv_urluser_get(cv), fld[1]), "user");
      sym_assert(eqstr(cv_urlpasswd_get(cv), fld[2]), "password");
      sym_assert(eqstr(cv_urladdr_get(cv), fld[3]), "address");
      sym_assert(eqstr(cv_urlpath_get(cv), fld[4]), "path");
    } else if (t == CGV_IPV6PFX) sym_assert(eqmem(cv_ipv6addr_get(cv), cv_ipv6addr_get(e), 16) & (cv_ipv6masklen_get(cv) == m6), "the prefix the text denotes");
    else sym_assert(same_val(cv, e), "the value the text denotes");
  }
  if (reason) { sym_assert(reason[0] != 0, "reason not empty"); free(reason); }
  c3 = cv_new(t);
  sym_assert(cv_parse1(s, c3, NULL) == r, "same verdict without a reason");
  cv_free(cv); cv_free(e); cv_free(c3);
  sym_observe(r);
  sym_assert(sym_live_bytes() == live0, "all memory released");
  sym_reach(r ? "accepted" : "refused");
}
/* every string of length L */
void c04_any(void) {
  errno = ERANGE;      /* left over from something else */
  int ti = sym_arg("t", 0), L = sym_arg("L", 3);
  char s[16];
  sym_str(s, L, "s");
  judge(T4[ti], s, NULL);
}
/* a template with arbitrary bytes put over, before or instead of nothing at an arbitrary position */
void c04_edit(void) {
  errno = ERANGE;      /* left over from something else */
  int ti = sym_arg("t", 0), k = sym_arg("k", 1), nt = 0;
  while (TM[ti][nt]) nt++;
  const char *t = TM[ti][sym_pick("tmpl", nt)];
  char s[64];
  int n = strlen(t), op = sym_arg("op", 0);
  int p = sym_pick("pos", n + (op != 0));
  char w[4];
  memcpy(s, t, p);
  if (op == 0) { /* over */
    int q = p + k > n ? n - p : k;
    sym_str(w, q, "w");
    memcpy(s + p, w, q); memcpy(s + p + q, t + p + q, n - p - q + 1);
  } else if (op == 1) { /* insert */
    sym_str(w, k, "w");
    memcpy(s + p, w, k); memcpy(s + p + k, t + p, n - p + 1);
  } else { /* delete one or more */
    int d = sym_pick("del", 3);
    if (p + d > n) d = n - p;
    memcpy(s + p, t + p + d, n - p - d + 1);
  }
  judge(T4[ti], s, sym_pick("again", 2) ? TM[ti][0] : NULL);
}
/* dates: all digits of year, month and day; hours, minutes and seconds */
void c04_date(void) {
  errno = ERANGE;      /* left over from something else */
  char s[] = "2000-00-00T00:00:00Z";
  int f = sym_arg("f", 0);
  if (f == 0) { sym_strset(s + 2, 2, "y", "0123456789"); s[4] = '-'; sym_strset(s + 5, 2, "m", "0123456789"); s[7] = '-'; memcpy(s + 8, sym_pick("d", 3) == 0 ? "29" : sym_pick("d2", 2) ? "30" : "31", 2); }
  if (f == 1) { memcpy(s + 5, "02-", 3); sym_strset(s, 4, "y", "0123456789"); s[4] = '-'; memcpy(s + 8, "29", 2); }
  if (f == 2) { memcpy(s + 5, "12-31", 5); int o = 11 + 3 * sym_pick("fld", 3); sym_strset(s + o, 2, "h", "0123456789"); s[o + 2] = o == 17 ? 'Z' : ':'; }
  if (f == 3) { sym_strset(s + 5, 2, "m", "0123456789"); s[7] = '-'; sym_strset(s + 8, 2, "d", "0123456789"); s[10] = 'T'; }
  judge(CGV_TIME, s, NULL);
}
/* prefix lengths: every number literal of up to D digits */
void c04_mask(void) {
  errno = ERANGE;      /* left over from something else */
  int v6 = sym_arg("v6", 0), D = sym_arg("D", 3);
  char s[64];
  const char *a = v6 ? "2001:db8::/" : "10.1.2.0/";
  int n = strlen(a), k;
  memcpy(s, a, n);
  switch (sym_pick("form", 5)) { case 1: s[n++] = '-'; break; case 2: s[n++] = '+'; break; case 3: s[n++] = '0'; s[n++] = 'x'; break; case 4: s[n++] = ' '; break; }
  k = sym_pick("n", D + 1);
  sym_strset(s + n, k, "m", "0123456789abcdefABCDEF");
  judge(v6 ? CGV_IPV6PFX : CGV_IPV4PFX, s, NULL);
}
