// Vocabulary of the harnesses. The functions are interpreted by the analysis;
// they have no bodies and nothing here is ever executed.
#pragma once
#include <cstdint>
extern "C" {
void __v_in(void *p, const char *name);
void __v_eq(const void *impl, const void *spec, const char *rule);
void __v_require(bool c, const char *rule);
void __v_assume(bool c);
unsigned long long __v_uf(const char *name, int bits, ...);
unsigned long long __v_fresh(const char *name, int bits);
void __v_ub(int on);
void __v_noexit(int on);
const char *__v_text(const char *rule, const char *detail);
const char *__v_num(const char *name, unsigned long long i);
void __v_order(unsigned long long x);   // the bits of x come before later unknowns in the decision diagrams
void __v_note(const char *s);
void __v_show(const char *s, unsigned long long v);
void __v_model(const char *function, void *replacement);
}
// every field of x becomes an unknown named name.field
template <class T> __attribute__((noinline)) void v_in(T &x, const char *name) { __v_in((void *)&x, name); }
// every field of impl must equal the same field of spec
template <class T> __attribute__((noinline)) void v_eq(const T &impl, const T &spec, const char *rule) { __v_eq((const void *)&impl, (const void *)&spec, rule); }
template <class T> inline void v_is(const T &impl, T spec, const char *rule) { v_eq<T>(impl, spec, rule); }
template <class T> inline T v_any(const char *name) { T x; v_in<T>(x, name); return x; }
#define V_REQUIRE(c, rule) __v_require((c), rule)
#define V_ASSUME(c) __v_assume((c))
// "rule: detail" and "name<i>"
inline const char *v_rule(const char *rule, const char *detail) { return __v_text(rule, detail); }
inline const char *v_name(const char *name, unsigned long long i) { return __v_num(name, i); }
