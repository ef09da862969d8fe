#include "base.h"
#ifdef VF_GLIBC
char *strlwr (char *s) { for (char *p = s; *p; p++) if (*p >= 'A' && *p <= 'Z') *p += 32; return s; }
char *strupr (char *s) { for (char *p = s; *p; p++) if (*p >= 'a' && *p <= 'z') *p -= 32; return s; }
#endif

/* guard bytes before and behind */
char arena[1600];
char *m;

void
reset (void)
{
  int i;
  m = arena + 300;
  for (i = 0; i < 1600; i = i + 1)
    arena[i] = 0;
  for (i = 0; i < 300; i = i + 1)
    arena[i] = 'G';
  for (i = 1324; i < 1600; i = i + 1)
    arena[i] = 'G';
}

void
digest (void)
{
  int i;
  int h = 0;
  int c;
  for (i = 0; i < 1600; i = i + 1)
    {
      c = arena[i];
      h = (h * 31 + (c & 0xff)) & 0xffffff;
    }
  o_num (h);
}

void
finish (void)
{
  o_mem (m, 1024);
  digest ();
}

void
o_ptr (char *p)
{
  if (p == 0)
    o_num (-1);
  else
    o_num (p - m);
}

void
do_op (int op)
{
  char *a;
  char *b;
  long n;
  long k;
  int c;
  o_num (op);
  if (op == 1)
    {
      n = num ();
      a = str ();
      for (k = 0; k < str_len; k = k + 1)
        m[n + k] = a[k];
      return;
    }
  a = m + num ();
  if (op == 2)
    o_num (strlen (a));
  else if (op == 3)
    { b = m + num (); o_ptr (strcpy (a, b)); }
  else if (op == 4)
    { b = m + num (); n = num (); o_ptr (strncpy (a, b, n)); }
  else if (op == 5)
    { b = m + num (); o_ptr (strcat (a, b)); }
  else if (op == 6)
    { b = m + num (); n = num (); o_ptr (strncat (a, b, n)); }
  else if (op == 7)
    { b = m + num (); o_num (sgn (strcmp (a, b))); }
  else if (op == 8)
    { b = m + num (); n = num (); o_num (sgn (strncmp (a, b, n))); }
  else if (op == 9)
    { b = m + num (); n = num (); o_num (sgn (memcmp (a, b, n))); }
  else if (op == 10)
    { c = num (); o_ptr (strchr (a, c)); }
  else if (op == 11)
    { c = num (); o_ptr (strrchr (a, c)); }
  else if (op == 12)
    { c = num (); n = num (); o_ptr (memchr (a, c, n)); }
  else if (op == 13)
    { b = m + num (); o_ptr (strstr (a, b)); }
  else if (op == 14)
    { n = num (); b = m + num (); k = num (); o_ptr (memmem (a, n, b, k)); }
  else if (op == 15)
    { b = m + num (); o_num (strspn (a, b)); }
  else if (op == 16)
    { b = m + num (); o_num (strcspn (a, b)); }
  else if (op == 17)
    { b = m + num (); o_ptr (strpbrk (a, b)); }
  else if (op == 18)
    { b = m + num (); n = num (); o_ptr (memcpy (a, b, n)); }
  else if (op == 19)
    { b = m + num (); n = num (); o_ptr (memmove (a, b, n)); }
  else if (op == 20)
    { c = num (); n = num (); o_ptr (memset (a, c, n)); }
  else if (op == 21)
    { b = strdup (a); o_num (b != a); o_str (b); b[0] = 1; free (b); }
  else if (op == 22)
    o_ptr (strlwr (a));
  else if (op == 23)
    o_ptr (strupr (a));
  else if (op == 24)
    { c = num (); o_ptr (index (a, c)); }
  else if (op == 25)
    { c = num (); o_ptr (rindex (a, c)); }
  else if (op == 26)
    { b = m + num (); n = num (); o_num (bcmp (a, b, n) != 0); }
  else if (op == 27)
    { b = m + num (); n = num (); bcopy (b, a, n); }
  else if (op == 28)
    { n = num (); bzero (a, n); }
  digest ();
}
