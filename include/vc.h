/*
 * vc.h - the vocabulary of the contract files in /verif/contracts.
 *
 * A contract file is ordinary C that #includes the real source (VC_SRC) and defines  void harness(void).  The same text
 * is read in two ways:
 *   GVC defined     the deductive verifier (tools/gvc.py) reads it; in_*() are arbitrary values, CHECK is an obligation,
 *                   functions named in an //@replace directive are replaced by their contract functions;
 *   GVC undefined   it is compiled with gcc against the real code and the real libraries; in_*() come from a replay
 *                   file or from a seeded generator, CHECK is tested.
 */
#ifndef VC_H
#define VC_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>

int in_int(int lo, int hi);
long in_long(long lo, long hi);
size_t in_size(size_t lo, size_t hi);
uint32_t in_u32(uint32_t lo, uint32_t hi);
char in_char(char lo, char hi);
uint32_t *in_u32arr(size_t n);     /* n arbitrary elements */
size_t *in_sizearr(size_t n);
int *in_intarr(size_t n);
char *in_str(size_t n);            /* n non-zero bytes and a terminator */

#ifdef GVC
unsigned vc_inv(int k, _Bool inv);                         /* loop invariant, evaluated at the loop head */
unsigned vc_inv_dec(int k, _Bool inv, long variant);       /* same, with a variant that must decrease */
unsigned vc_w(int k, const void *p);                       /* the loop may write the object p points to */
unsigned vc_own(int k, const void *pp);                    /* the pointer *pp has its object to itself (it may be reallocated in the loop) */
unsigned vc_f(int k, const void *p);                       /* the loop may free the object of p (but not write it), on a path that leaves the loop */
unsigned vc_keep(int k, const void *pp);                   /* the loop leaves the scalar *pp alone (checked), although vc_w names its object */
void vc_cover(const char *name);                           /* must be reachable (vacuity guard) */
size_t vc_objsize(const void *p);
long vc_off(const void *p);
long vc_obj(const void *p);
_Bool vc_valid(const void *p, size_t bytes);
_Bool vc_new(const void *p);
_Bool vc_alive(const void *p);
void vc_havoc_obj(const void *p);
int nondet_int(void); size_t nondet_size_t(void); uint32_t nondet_u32(void); _Bool nondet_bool(void); long nondet_long(void);
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, msg)
#define COVER(name) vc_cover(name)
#define FORALL(k, cond) __CPROVER_forall { size_t k; cond }
#define ALL(k, lo, hi, cond) __CPROVER_forall { size_t k; !(k >= (lo) && k < (hi)) || (cond) }
#else
#define ALL(k, lo, hi, cond) ({ _Bool all_ = 1; for (size_t k = (lo); k < (hi); k++) if (!(cond)) { all_ = 0; break; } all_; })
void vc_assume_fail(void);
void vc_check_fail(const char *msg, const char *file, int line);
extern unsigned long vc_checks, vc_covers;
#define ASSUME(c) do { if (!(c)) vc_assume_fail(); } while (0)
#define CHECK(c, msg) do { vc_checks++; if (!(c)) vc_check_fail(msg, __FILE__, __LINE__); } while (0)
#define COVER(name) (vc_covers++)
#endif
#define IMPLIES(a, b) (!(a) || (b))
#endif
