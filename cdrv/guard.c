#include "base.h"
/* Every operand lies in a zone of its own between two pages that cannot be accessed, right at the first or right
   at the last of them; operands a function only reads are read-only. */
#ifdef VF_GLIBC
#include <sys/mman.h>
char *strlwr (char *s) { for (char *p = s; *p; p++) if (*p >= 'A' && *p <= 'Z') *p += 32; return s; }
char *strupr (char *s) { for (char *p = s; *p; p++) if (*p >= 'a' && *p <= 'z') *p -= 32; return s; }
char *memmem_ (char *h, long n, char *x, long k) { if (!k) return h; return memmem (h, n, x, k); }
#define memmem memmem_
void
protect (char *p, long n, int how)
{
  mprotect (p, n, how);
}
#else
#include <linux/syscall.h>
void
protect (char *p, long n, int how)
{
  if (sizeof (long) == 8)
    _sys_call3 (10, (long) p, n, how);
  else
    _sys_call3 (125, (long) p, n, how);
}
#endif

#define PAGE 4096
#define ZONE 8192
char room[61440];
char *zone[4];
char *obj_p[4];
long obj_n[4];
int obj_ro[4];
int objs;

void
reset (void)
{
  int i;
  char *p;
  unsetenv ("A");
  unsetenv ("AB");
  unsetenv ("ABC");
  unsetenv ("B");
  unsetenv ("HOME");
  if (zone[0] != 0)
    return;
  p = room;
  i = (long) p & 4095;
  p = p + PAGE - i;
  protect (p, PAGE, 0);
  p = p + PAGE;
  for (i = 0; i < 4; i = i + 1)
    {
      zone[i] = p;
      p = p + ZONE;
      protect (p, PAGE, 0);
      p = p + PAGE;
    }
}

void
finish (void)
{
}

/* SIDE BYTES READONLY */
char *
obj (void)
{
  int side;
  long n;
  long i;
  char *s;
  char *p;
  char *z = zone[objs];
  side = num ();
  s = str ();
  n = str_len;
  p = z;
  for (i = 0; i < ZONE; i = i + 1)
    p[i] = 'Z';
  if (side)
    p = z + ZONE - n;
  for (i = 0; i < n; i = i + 1)
    p[i] = s[i];
  obj_p[objs] = p;
  obj_n[objs] = n;
  obj_ro[objs] = num ();
  if (obj_ro[objs])
    protect (z, ZONE, 1);
  objs = objs + 1;
  return p;
}

/* what the operands and what is around them hold afterwards */
void
digest (void)
{
  int i;
  long j;
  int h;
  char *z;
  for (i = 0; i < objs; i = i + 1)
    {
      z = zone[i];
      if (obj_ro[i])
        protect (z, ZONE, 3);
      else
        {
          o_mem (obj_p[i], obj_n[i]);
          h = 0;
          for (j = 0; j < ZONE; j = j + 1)
            {
              if (z + j < obj_p[i] || z + j >= obj_p[i] + obj_n[i])
                if (z[j] != 'Z')
                  h = h + 1;
            }
          o_num (h);
        }
    }
  objs = 0;
}

int
compare_first (void const *a, void const *b)
{
  unsigned char const *x = a;
  unsigned char const *y = b;
  return x[0] - y[0];
}

char *base_p;

void
o_ptr (char *p)
{
  if (p == 0)
    o_num (-1);
  else
    o_num (p - base_p);
}

/* a stream with these bytes, and nothing after them */
int
source (void)
{
  int fds[2];
  char *s = str ();
  long n = str_len;
  pipe (fds);
  write (fds[1], s, n);
  close (fds[1]);
  return fds[0];
}

char back[5000];

void
drain (int fd)
{
  long r = 1;
  long n = 0;
  while (r > 0)
    {
      r = read (fd, back + n, 4500 - n);
      if (r > 0)
        n = n + r;
    }
  o_mem (back, n);
  close (fd);
}

void
do_op (int op)
{
  char *a;
  char *b;
  char *e;
  long n;
  long k;
  int c;
  int fd;
  int fds[2];
  FILE *f;
  objs = 0;
  o_num (op);
  a = obj ();
  base_p = a;
  if (op == 2)
    o_num (strlen (a));
  else if (op == 3)
    { b = obj (); o_ptr (strcpy (a, b)); }
  else if (op == 4)
    { b = obj (); n = num (); o_ptr (strncpy (a, b, n)); }
  else if (op == 5)
    { b = obj (); o_ptr (strcat (a, b)); }
  else if (op == 6)
    { b = obj (); n = num (); o_ptr (strncat (a, b, n)); }
  else if (op == 7)
    { b = obj (); o_num (sgn (strcmp (a, b))); }
  else if (op == 8)
    { b = obj (); n = num (); o_num (sgn (strncmp (a, b, n))); }
  else if (op == 9)
    { b = obj (); n = num (); o_num (sgn (memcmp (a, b, n))); }
  else if (op == 10)
    { c = num (); o_ptr (strchr (a, c)); }
  else if (op == 11)
    { c = num (); o_ptr (strrchr (a, c)); }
  else if (op == 12)
    { c = num (); n = num (); o_ptr (memchr (a, c, n)); }
  else if (op == 13)
    { b = obj (); o_ptr (strstr (a, b)); }
  else if (op == 14)
    { b = obj (); o_ptr (memmem (a, obj_n[0], b, obj_n[1])); }
  else if (op == 15)
    { b = obj (); o_num (strspn (a, b)); }
  else if (op == 16)
    { b = obj (); o_num (strcspn (a, b)); }
  else if (op == 17)
    { b = obj (); o_ptr (strpbrk (a, b)); }
  else if (op == 18)
    { b = obj (); o_ptr (memcpy (a, b, obj_n[1])); }
  else if (op == 19)
    { k = num (); n = num (); c = num (); o_ptr (memmove (a + k, a + n, c)); }
  else if (op == 20)
    { c = num (); o_ptr (memset (a, c, obj_n[0])); }
  else if (op == 21)
    { b = strdup (a); o_num (b != a); o_str (b); free (b); }
  else if (op == 22)
    o_ptr (strlwr (a));
  else if (op == 23)
    o_ptr (strupr (a));
  else if (op == 24)
    { c = num (); o_ptr (index (a, c)); }
  else if (op == 25)
    { c = num (); o_ptr (rindex (a, c)); }
  else if (op == 26)
    { b = obj (); n = num (); o_num (bcmp (a, b, n) != 0); }
  else if (op == 27)
    { b = obj (); bcopy (b, a, obj_n[1]); }
  else if (op == 28)
    bzero (a, obj_n[0]);
  else if (op == 30)
    o_num (atoi (a));
  else if (op == 31)
    o_num (atol (a));
  else if (op == 32)
    { c = num (); e = 0; o_num (strtol (a, &e, c)); o_ptr (e); }
  else if (op == 33)
    { c = num (); e = 0; o_num (strtoul (a, &e, c)); o_ptr (e); }
  else if (op == 40)
    { b = obj (); n = num (); k = num (); o_num (snprintf (a, n, "%.*s", k, b)); }
  else if (op == 41)
    { b = obj (); k = num (); o_num (snprintf (a, obj_n[0], b, k)); }
  else if (op == 42)
    { b = obj (); o_num (sprintf (a, "%s", b)); }
  else if (op == 43)
    { k = -7; o_num (sscanf (a, "%d", &c)); }
  else if (op == 44)
    { b = obj (); n = num (); k = num (); o_num (sscanf (a, b, &n, &k)); o_num (n & 255); }
  else if (op == 50)
    { n = num (); k = num (); qsort (a, n, k, compare_first); }
  else if (op == 60)
    { fd = source (); f = fdopen (fd, "r"); e = fgets (a, obj_n[0], f); o_num (e == a); o_num (e == 0); fclose (f); }
  else if (op == 61)
    { fd = source (); f = fdopen (fd, "r"); n = num (); k = num (); o_num (fread (a, n, k, f)); fclose (f); }
  else if (op == 62)
    { fd = source (); o_num (read (fd, a, obj_n[0])); close (fd); }
  else if (op == 63)
    { pipe (fds); o_num (write (fds[1], a, obj_n[0])); close (fds[1]); drain (fds[0]); }
  else if (op == 64)
    { pipe (fds); f = fdopen (fds[1], "w"); n = num (); k = num (); o_num (fwrite (a, n, k, f)); fclose (f); drain (fds[0]); }
  else if (op == 65)
    { pipe (fds); f = fdopen (fds[1], "w"); o_num (fputs (a, f) >= 0); fclose (f); drain (fds[0]); }
  else if (op == 70)
    o_str (getenv (a));
  else if (op == 71)
    { b = obj (); o_num (setenv (a, b, 1)); o_str (getenv (a)); }
  else if (op == 72)
    { unsetenv (a); o_str (getenv (a)); }
  else if (op == 73)
    o_num (access (a, 0));
  else if (op == 74)
    { fd = open (a, 0); o_num (fd); }
  else if (op == 75)
    { b = malloc (obj_n[0]); memcpy (b, a, obj_n[0]); n = num (); b = realloc (b, n); if (n > obj_n[0]) n = obj_n[0]; o_mem (b, n); free (b); }
  digest ();
}
