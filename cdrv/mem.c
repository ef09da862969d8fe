#include "base.h"
#ifdef VF_GLIBC
extern char **environ;
#endif

#define SLOTS 24
char *blk[SLOTS];
long len[SLOTS];
int seed[SLOTS];
char qbuf[40000];
int q_size;
int q_key;
long q_calls;
char *names[40];
int n_names;

void
finish (void)
{
}

/* every case starts with nothing live */
void
reset (void)
{
  int i;
  for (i = 0; i < SLOTS; i = i + 1)
    {
      if (blk[i])
        free (blk[i]);
      blk[i] = 0;
      len[i] = 0;
    }
  for (i = 0; i < n_names; i = i + 1)
    unsetenv (names[i]);
  n_names = 0;
}

void
fill (char *p, long n, int s)
{
  long i;
  for (i = 0; i < n; i = i + 1)
    p[i] = s + i * 7;
}

/* first place where the pattern is not there, or -1 */
long
bad (char *p, long n, int s)
{
  long i;
  int a;
  int b;
  for (i = 0; i < n; i = i + 1)
    {
      a = p[i];
      b = s + i * 7;
      if ((a & 0xff) != (b & 0xff))
        return i;
    }
  return -1;
}

/* all live blocks: contents, and apart from each other */
void
check_blocks (void)
{
  int i;
  int j;
  for (i = 0; i < SLOTS; i = i + 1)
    if (blk[i])
      {
        if (bad (blk[i], len[i], seed[i]) >= 0)
          {
            o_char (' ');
            o_char ('C');
            o_num (i);
          }
        for (j = 0; j < i; j = j + 1)
          if (blk[j] && len[i] > 0 && len[j] > 0 && blk[i] < blk[j] + len[j] && blk[j] < blk[i] + len[i])
            {
              o_char (' ');
              o_char ('O');
              o_num (i);
              o_num (j);
            }
      }
}

void
put (int k, char *p, long n, int s)
{
  blk[k] = p;
  len[k] = n;
  seed[k] = s;
  if (p == 0)
    {
      o_num (0);
      len[k] = 0;
      return;
    }
  o_num (1);
  /* aligned for any of the basic types */
  o_num (((long) p) & (sizeof (long) - 1));
  fill (p, n, s);
}

int
compare (void const *x, void const *y)
{
  char *a = (char *) x;
  char *b = (char *) y;
  int i;
  int c;
  int d;
  q_calls = q_calls + 1;
  /* operands inside the array, on element boundaries */
  if ((a < qbuf + 100 || b < qbuf + 100) && q_calls > 0)
    q_calls = -1000000;
  if (((a - qbuf - 100) % q_size != 0 || (b - qbuf - 100) % q_size != 0) && q_calls > 0)
    q_calls = -2000000;
  for (i = 0; i < q_key; i = i + 1)
    {
      c = a[i];
      d = b[i];
      c = c & 0xff;
      d = d & 0xff;
      if (c != d)
        return (c - d) * 1000;
    }
  return 0;
}

void
do_op (int op)
{
  int k;
  int i;
  long n;
  long m;
  int s;
  char *p;
  char *q;
  char **e;
  o_num (op);
  if (op < 10)
    {
      k = num ();
      if (op == 1)
        {
          n = num ();
          s = num ();
          put (k, malloc (n), n, s);
        }
      else if (op == 2)
        {
          n = num ();
          m = num ();
          s = num ();
          p = calloc (n, m);
          if (p)
            {
              i = 0;
              while (i < n * m && p[i] == 0)
                i = i + 1;
              o_num (i == n * m);
            }
          put (k, p, n * m, s);
        }
      else if (op == 3)
        {
          n = num ();
          s = num ();
          m = len[k];
          if (n < m)
            m = n;
          p = realloc (blk[k], n);
          o_num (p == 0 || bad (p, m, seed[k]));
          put (k, p, n, s);
        }
      else if (op == 4)
        {
          free (blk[k]);
          blk[k] = 0;
          len[k] = 0;
        }
      else if (op == 5)
        {
          /* more than there is */
          n = num ();
          p = malloc (n);
          o_num (p == 0);
        }
      else if (op == 6)
        {
          n = num ();
          m = num ();
          p = calloc (n, m);
          o_num (p == 0);
        }
      else if (op == 7)
        {
          /* block K is kept when realloc cannot grow it */
          n = num ();
          p = realloc (blk[k], n);
          o_num (p == 0);
        }
      else if (op == 8)
        {
          p = strdup (str ());
          put (k, p, str_len, 5);
        }
      check_blocks ();
    }
  else if (op == 10)
    {
      /* qsort: element size, key size, contents; N = full comparison */
      q_size = num ();
      q_key = num ();
      p = str ();
      n = str_len / q_size;
      for (m = 0; m < 300 + str_len; m = m + 1)
        qbuf[m] = 'Q';
      for (m = 0; m < str_len; m = m + 1)
        qbuf[100 + m] = p[m];
      q_calls = 0;
      qsort (qbuf + 100, n, q_size, compare);
      o_num (q_calls < 0);
      /* guards */
      i = 0;
      for (m = 0; m < 100; m = m + 1)
        if (qbuf[m] != 'Q' || qbuf[100 + str_len + m] != 'Q')
          i = i + 1;
      o_num (i);
      /* keys in order, and a checksum of the elements in any order */
      s = 0;
      for (m = 0; m < n; m = m + 1)
        {
          q = qbuf + 100 + m * q_size;
          o_mem (q, q_key);
          k = 7;
          for (i = 0; i < q_size; i = i + 1)
            k = ((k * 31) & 0xffffff) + (q[i] & 0xff);
          s = (s + k) & 0xffffff;
        }
      o_num (s);
    }
  else if (op == 20)
    {
      p = str ();
      q = str ();
      k = num ();
      names[n_names] = p;
      n_names = n_names + 1;
      o_num (setenv (p, q, k));
    }
  else if (op == 21)
    {
      p = str ();
      unsetenv (p);
    }
  else if (op == 22)
    {
      p = str ();
      o_str (getenv (p));
    }
  if (op >= 20)
    {
      n = 0;
      for (e = environ; *e; e++)
        n = n + 1;
      o_num (n);
      for (i = 0; i < n_names; i = i + 1)
        o_str (getenv (names[i]));
    }
}
