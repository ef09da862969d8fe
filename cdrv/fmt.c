#include "base.h"

long args[40];
int counts[40];
char buf[4200];
char rest[4200];

#ifdef VF_GLIBC
#define VA(ap) ap[0].gp_offset = 48; ap[0].fp_offset = 304; ap[0].overflow_arg_area = args; ap[0].reg_save_area = 0
#else
#define VA(ap) ap = (char *) args
#endif

void
reset (void)
{
}

void
finish (void)
{
}

/* number of arguments, then each of them: 0 number, 1 string, 2 address of a counter */
void
get_args (void)
{
  int n = num ();
  int i;
  int k;
  for (i = 0; i < n; i = i + 1)
    {
      k = num ();
      counts[i] = -1;
      if (k == 0)
        args[i] = num ();
      else if (k == 1)
        args[i] = (long) str ();
      else
        args[i] = (long) &counts[i];
    }
  while (i < 8)
    {
      counts[i] = -1;
      args[i] = 0;
      i = i + 1;
    }
}

void
o_counts (void)
{
  int i;
  for (i = 0; i < 8; i = i + 1)
    if (counts[i] != -1)
      o_num (counts[i]);
}

void
fill (char *b, long n)
{
  long i;
  for (i = 0; i < n; i = i + 1)
    b[i] = 'Z';
}

/* nothing behind the first N bytes was touched */
void
o_guard (long n)
{
  while (n < 4200)
    {
      if (buf[n] != 'Z')
        {
          o_num (n);
          return;
        }
      n = n + 1;
    }
  o_num (-1);
}

int
slurp (int fd, char *b, int max)
{
  int n = 0;
  int r = 1;
  while (r > 0 && n < max)
    {
      r = read (fd, b + n, max - n);
      if (r > 0)
        n = n + r;
    }
  return n;
}

void
do_op (int op)
{
  char *f;
  char *s;
  long n;
  int r;
  int i;
  int c;
  int fds[2];
  FILE *file;
  va_list ap;
  o_num (op);
  if (op == 1)
    {
      n = num ();
      f = str ();
      get_args ();
      VA (ap);
      fill (buf, 4200);
      r = vsnprintf (buf, n, f, ap);
      o_num (r);
      if (n > 0)
        o_str (buf);
      o_guard (n);
      o_counts ();
    }
  else if (op == 2)
    {
      f = str ();
      get_args ();
      VA (ap);
      fill (buf, 4200);
      r = vsprintf (buf, f, ap);
      o_num (r);
      o_mem (buf, r + 1);
      o_guard (r + 1);
      o_counts ();
    }
  else if (op == 3)
    {
      f = str ();
      get_args ();
      VA (ap);
      pipe (fds);
      file = fdopen (fds[1], "w");
      r = vfprintf (file, f, ap);
      fclose (file);
      o_num (r);
      n = slurp (fds[0], buf, 4000);
      close (fds[0]);
      o_mem (buf, n);
      o_counts ();
    }
  else if (op == 4)
    {
      n = num ();
      f = str ();
      get_args ();
      fill (buf, 4200);
      r = snprintf (buf, n, f, args[0], args[1], args[2], args[3], args[4], args[5]);
      o_num (r);
      if (n > 0)
        o_str (buf);
      o_guard (n);
    }
  else if (op == 5)
    {
      f = str ();
      get_args ();
      fill (buf, 4200);
      r = sprintf (buf, f, args[0], args[1], args[2], args[3], args[4], args[5]);
      o_num (r);
      o_mem (buf, r + 1);
    }
  else if (op == 6)
    {
      f = str ();
      get_args ();
      pipe (fds);
      file = fdopen (fds[1], "w");
      r = fprintf (file, f, args[0], args[1], args[2], args[3], args[4], args[5]);
      fclose (file);
      o_num (r);
      n = slurp (fds[0], buf, 4000);
      close (fds[0]);
      o_mem (buf, n);
    }
  else
    {
      /* 10 vsscanf, 11 vfscanf, 12 sscanf, 13 fscanf: input, template, kinds: 0 char, 1 int, 2 long */
      long slot[8];
      int kind[8];
      int k;
      s = str ();
      n = str_len;
      f = str ();
      k = num ();
      for (i = 0; i < 8; i = i + 1)
        {
          slot[i] = 99;
          args[i] = (long) &slot[i];
        }
      for (i = 0; i < k; i = i + 1)
        kind[i] = num ();
      VA (ap);
      if (op == 10)
        r = vsscanf (s, f, ap);
      else if (op == 12)
        r = sscanf (s, f, args[0], args[1], args[2], args[3]);
      else
        {
          pipe (fds);
          write (fds[1], s, n);
          close (fds[1]);
          file = fdopen (fds[0], "r");
          if (op == 11)
            r = vfscanf (file, f, ap);
          else
            r = fscanf (file, f, args[0], args[1], args[2], args[3]);
        }
      o_num (r);
      for (i = 0; i < k; i = i + 1)
        {
          if (kind[i] == 0)
            {
              c = slot[i];
              o_num (c & 0xff);
            }
          else if (kind[i] == 1)
            {
              c = slot[i];
              o_num (c);
            }
          else
            o_num (slot[i]);
        }
      if (op == 11 || op == 13)
        {
          /* what is left on the stream */
          n = 0;
          c = fgetc (file);
          while (c >= 0 && n < 1000)
            {
              rest[n] = c;
              n = n + 1;
              c = fgetc (file);
            }
          o_mem (rest, n);
          fclose (file);
        }
    }
}
