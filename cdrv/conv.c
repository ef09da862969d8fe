#include "base.h"
#ifdef VF_GLIBC
static char rbuf[100];
char *
ntoab (long x, unsigned base, int sgnd)
{
  char *p = rbuf + 99;
  unsigned long u = x;
  int neg = 0;
  if (sgnd && x < 0)
    neg = 1, u = 0 - u;
  *p = 0;
  do
    *--p = "0123456789abcdefghijklmnopqrstuvwxyz"[u % base];
  while (u /= base);
  if (neg)
    *--p = '-';
  return p;
}
char *itoa (int x) { return ntoab (x, 10, 1); }
char *ltoa (long x) { return ntoab (x, 10, 1); }
char *ltoab (long x, int b) { return ntoab (x, b, 1); }
char *utoa (unsigned x) { return ntoab (x, 10, 0); }
char *ultoa (unsigned long x) { return ntoab (x, 10, 0); }
long abtol (char const **p, int base)
{
  char *e;
  long r = strtol (*p, &e, base ? base : 10);
  *p = e;
  return r;
}
int isnumber (int c, int base)
{
  return base == 2 ? c == '0' || c == '1' : base == 8 ? c >= '0' && c <= '7' : base == 10 ? c >= '0' && c <= '9' : c >= 0 && c < 256 && isxdigit (c);
}
unsigned long __mesabi_uldiv (unsigned long a, unsigned long b, unsigned long *r) { *r = a % b; return a / b; }
#endif
#ifndef VF_GLIBC
unsigned long __mesabi_uldiv (unsigned long a, unsigned long b, unsigned long *remainder);
#endif

#ifndef __MESC__
#define FLOATS 1
#endif

#if FLOATS
#ifdef VF_GLIBC
#include <math.h>
char *
dtoab (double d, int base, int s)
{
  static char b[100];
  char *p;
  sprintf (b, "%.8f", d);
  p = b + strlen (b);
  while (p[-1] == '0')
    *--p = 0;
  if (p[-1] == '.')
    *--p = 0;
  return b;
}
double abtod (char const **p, int b) { char *e; double d = strtod (*p, &e); *p = e; return d; }
#else
double floor (double x);
double ceil (double x);
double fabs (double x);
#endif

void
o_dbl (double d)
{
  /* to nine digits or so: the mantissa's top and the exponent */
  int e = 0;
  long neg = 0;
  if (d < 0)
    {
      neg = 1;
      d = -d;
    }
  if (d > 0)
    {
      while (d >= 10)
        {
          d = d / 10;
          e = e + 1;
        }
      while (d < 1)
        {
          d = d * 10;
          e = e - 1;
        }
    }
  o_char (' ');
  o_char (neg ? '-' : '+');
  o_num ((long) (d * 100000000 + 0.5));
  o_char ('e');
  o_num (e);
}
#endif

void
reset (void)
{
}

void
finish (void)
{
}

int
b (int x)
{
  return x != 0;
}

void
do_op (int op)
{
  char *s;
  char *t;
  char const *cs;
  long n;
  long k;
  int base;
  o_num (op);
  if (op == 1)
    {
      int c = num ();
      o_num (c);
      o_num (b (isalnum (c)));
      o_num (b (isalpha (c)));
      o_num (b (isascii (c)));
      o_num (b (iscntrl (c)));
      o_num (b (isdigit (c)));
      o_num (b (isgraph (c)));
      o_num (b (islower (c)));
      o_num (b (isprint (c)));
      o_num (b (ispunct (c)));
      o_num (b (isspace (c)));
      o_num (b (isupper (c)));
      o_num (b (isxdigit (c)));
      o_num (tolower (c));
      o_num (toupper (c));
    }
  else if (op == 2)
    {
      int c = num ();
      base = num ();
      o_num (b (isnumber (c, base)));
    }
  else if (op == 3)
    { s = str (); o_num (atoi (s)); }
  else if (op == 4)
    { s = str (); o_num (atol (s)); }
  else if (op == 5)
    { s = str (); base = num (); n = strtol (s, &t, base); o_num (n); o_num (t - s); }
  else if (op == 6)
    { s = str (); base = num (); n = strtoul (s, &t, base); o_num (n); o_num (t - s); }
  else if (op == 7)
    { s = str (); base = num (); n = strtoll (s, &t, base); o_num (n); o_num (t - s); }
  else if (op == 8)
    { s = str (); base = num (); n = strtoull (s, &t, base); o_num (n); o_num (t - s); }
  else if (op == 9)
    { s = str (); base = num (); n = strtol (s, 0, base); o_num (n); }
  else if (op == 10)
    { n = num (); o_str (itoa (n)); }
  else if (op == 11)
    { n = num (); o_str (ltoa (n)); }
  else if (op == 12)
    { n = num (); o_str (ultoa (n)); }
  else if (op == 13)
    { n = num (); o_str (utoa (n)); }
  else if (op == 14)
    { n = num (); base = num (); o_str (ltoab (n, base)); }
  else if (op == 15)
    { n = num (); base = num (); k = num (); o_str (ntoab (n, base, k)); }
  else if (op == 16)
    { n = num (); o_num (abs (n)); }
  else if (op == 17)
    {
      s = str ();
      base = num ();
      cs = s;
      n = abtol (&cs, base);
      o_num (n);
      o_num (cs - s);
    }
  else if (op == 18)
    {
      unsigned long r;
      n = num ();
      k = num ();
      n = __mesabi_uldiv (n, k, &r);
      o_num (n);
      o_num (r);
    }
#if FLOATS
  else if (op == 30)
    { s = str (); double d = strtod (s, &t); o_dbl (d); o_num (t - s); }
  else if (op == 31)
    { s = str (); o_dbl (atof (s)); }
  else if (op == 32)
    { n = num (); k = num (); o_str (dtoab (n / (double) k, 10, 1)); }
  else if (op == 33)
    { n = num (); k = num (); o_dbl (floor (n / (double) k)); }
  else if (op == 34)
    { n = num (); k = num (); o_dbl (ceil (n / (double) k)); }
  else if (op == 35)
    { n = num (); k = num (); o_dbl (fabs (n / (double) k)); }
  else if (op == 36)
    { s = str (); o_dbl (strtof (s, 0)); }
#endif
}
