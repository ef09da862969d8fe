/* Script-driven test driver: reads decimal numbers and hex strings from standard input, prints numbers and hex
   strings.  Compiled against glibc (the reference), and against the Mes C library by gcc and by MesCC. */
#ifdef VF_GLIBC
#define _GNU_SOURCE
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <setjmp.h>
#include <signal.h>
#include <dirent.h>
#else
#include <mes/lib.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <setjmp.h>
#include <signal.h>
#include <dirent.h>
#endif

#define SCRIPT_MAX 2000000
char script[SCRIPT_MAX];
long script_pos;
char pool[200000];
long pool_pos;
char obuf[70000];
long obuf_pos;
int out_fd;

void
flush_out (void)
{
  long i = 0;
  long r;
  while (i < obuf_pos)
    {
      r = write (out_fd, obuf + i, obuf_pos - i);
      if (r <= 0)
        _exit (97);
      i = i + r;
    }
  obuf_pos = 0;
}

void
o_char (int c)
{
  if (obuf_pos >= 65000)
    flush_out ();
  obuf[obuf_pos] = c;
  obuf_pos = obuf_pos + 1;
}

void
o_num (long n)
{
  char b[30];
  int i = 0;
  int neg = 0;
  long d;
  if (n < 0)
    neg = 1;
  else
    n = 0 - n;
  do
    {
      d = n / 10;
      b[i] = 48 - (n - d * 10);
      i = i + 1;
      n = d;
    }
  while (n != 0);
  o_char (' ');
  if (neg)
    o_char ('-');
  while (i > 0)
    {
      i = i - 1;
      o_char (b[i]);
    }
}

void
o_hex (int c)
{
  if (c > 9)
    o_char (c + 87);
  else
    o_char (c + 48);
}

void
o_mem (char *s, long n)
{
  long i = 0;
  int c;
  o_char (' ');
  o_char ('x');
  while (i < n)
    {
      c = s[i];
      c = c & 0xff;
      o_hex (c >> 4);
      o_hex (c & 15);
      i = i + 1;
    }
}

void
o_str (char *s)
{
  long n = 0;
  if (s == 0)
    {
      o_char (' ');
      o_char ('-');
      return;
    }
  while (s[n] != 0)
    n = n + 1;
  o_mem (s, n);
}

void
o_nl (void)
{
  o_char ('\n');
}

int
sgn (int x)
{
  if (x < 0)
    return -1;
  if (x > 0)
    return 1;
  return 0;
}

int
peek (void)
{
  while (script[script_pos] == ' ' || script[script_pos] == '\n')
    script_pos = script_pos + 1;
  return script[script_pos];
}

long
num (void)
{
  long n = 0;
  int neg = 0;
  int c = peek ();
  if (c == '-')
    {
      neg = 1;
      script_pos = script_pos + 1;
    }
  c = script[script_pos];
  while (c >= '0' && c <= '9')
    {
      n = n * 10 - (c - '0');
      script_pos = script_pos + 1;
      c = script[script_pos];
    }
  if (neg)
    return n;
  return 0 - n;
}

int
hexval (int c)
{
  if (c >= 'a')
    return c - 87;
  return c - 48;
}

long str_len;

/* xHEX, or - for a null pointer */
char *
str (void)
{
  int c = peek ();
  char *r = pool + pool_pos;
  int a;
  script_pos = script_pos + 1;
  if (c == '-')
    return 0;
  str_len = 0;
  c = script[script_pos];
  while (c != ' ' && c != '\n' && c != 0)
    {
      a = hexval (c) * 16;
      a = a + hexval (script[script_pos + 1]);
      pool[pool_pos] = a;
      pool_pos = pool_pos + 1;
      str_len = str_len + 1;
      script_pos = script_pos + 2;
      c = script[script_pos];
    }
  pool[pool_pos] = 0;
  pool_pos = pool_pos + 1;
  return r;
}

void do_op (int op);
#ifdef VF_ALT
int alt_main (int argc, char **argv);
#endif
void reset (void);
void finish (void);

int
main (int argc, char **argv)
{
  long r;
  long n = 0;
  int op;
  int fd = 0;
  out_fd = 1;
#ifdef VF_ALT
  if (argc > 1 && argv[1][0] == '@')
    return alt_main (argc, argv);
#endif
  if (argc > 1)
    {
      /* script and output on files of their own, standard streams are for the test */
      fd = open (argv[1], 0);
      out_fd = open (argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2 (fd, 500);
      dup2 (out_fd, 501);
      close (out_fd);
      close (fd);
      fd = 500;
      out_fd = 501;
    }
  r = 1;
  while (r > 0)
    {
      r = read (fd, script + n, SCRIPT_MAX - 1 - n);
      if (r > 0)
        n = n + r;
    }
  script[n] = 0;
  reset ();
  while (peek () != 0)
    {
      op = num ();
      if (op == 0)
        {
          finish ();
          o_char ('.');
          o_nl ();
          reset ();
          pool_pos = 0;
        }
      else
        {
          do_op (op);
          o_nl ();
        }
      if (out_fd != 1)
        flush_out ();
    }
  flush_out ();
  return 0;
}
