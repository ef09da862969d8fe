#ifdef VF_GLIBC
#define signal sysv_signal
#endif
#define VF_ALT 1
#include "base.h"
#ifdef VF_GLIBC
#include <time.h>
#include <sys/time.h>
#else
#include <time.h>
#include <sys/time.h>
extern char **environ;
#endif

/* Everything happens in the directory the driver is started in; only own children are signalled. */

int pp[2];
char cbuf[70000];
char *args[20];
char *envs[20];
#ifdef VF_GLIBC
jmp_buf jb[12];
#define JB(i) jb[i]
#else
__jmp_buf jb[12];
#define JB(i) (&jb[i])
#endif
int jmax;
int handled;

int
child (void)
{
  int pid;
  flush_out ();
  pipe (pp);
  pid = fork ();
  if (pid == 0)
    {
      close (pp[0]);
      out_fd = pp[1];
      obuf_pos = 0;
    }
  else
    close (pp[1]);
  return pid;
}

void
o_status (int status)
{
  o_num (status & 0xffff);
}

void
collect (int pid)
{
  int n = 0;
  int r = 1;
  int status = -1;
  while (r > 0)
    {
      r = read (pp[0], cbuf + n, 60000 - n);
      if (r > 0)
        n = n + r;
    }
  close (pp[0]);
  o_mem (cbuf, n);
  r = waitpid (pid, &status, 0);
  o_num (r == pid);
  o_status (status);
}

void
mark (int n)
{
  o_num (n);
  flush_out ();
}

void h0 (void) { mark (1000); }
void h1 (void) { mark (1001); }
void h2 (void) { mark (1002); }
void h3 (void) { mark (1003); }

void
handler (int signum)
{
  o_num (2000);
  o_num (signum);
  handled = handled + 1;
}

void
o_handler (long r)
{
  if (r == 0)
    o_num (0);
  else if (r == 1)
    o_num (1);
  else if (r == -1)
    o_num (-1);
  else
    o_num (2);
}

/* the program that is executed */
int
alt_main (int argc, char **argv)
{
  int i = 0;
  char path[2000];
  char cwd[2000];
  int n;
  int m = 0;
  out_fd = 501;
  if (argv[1][1] == 'r')
    return atoi (argv[2]);
  if (argv[1][1] == 'e')
    exit (atoi (argv[2]));
  n = readlink ("/proc/self/exe", path, 1999);
  path[n] = 0;
  getcwd (cwd, 2000);
  while (cwd[m])
    m = m + 1;
  o_str (path + m);
  o_num (argc);
  while (i < argc)
    {
      o_str (argv[i]);
      i = i + 1;
    }
  o_num (argv[argc] == 0);
  o_char ('/');
  i = 0;
  while (environ[i])
    {
      o_str (environ[i]);
      i = i + 1;
    }
  flush_out ();
  return 0;
}

int
strs (char **a, int n)
{
  int i;
  for (i = 0; i < n; i = i + 1)
    a[i] = str ();
  a[n] = 0;
  return n;
}

void
rec (int level)
{
  int v;
  int a;
  int t;
  long local = level * 1000 + 7;
  v = setjmp (JB (level));
  o_num (-level);
  o_num (v);
  while (1)
    {
      o_num (local);
      a = num ();
      if (a == 1)
        rec (level + 1);
      else if (a == 2)
        {
          t = num ();
          v = num ();
          longjmp (JB (t), v);
        }
      else
        return;
    }
}

void
reset (void)
{
}

void
finish (void)
{
  int s;
  o_num (wait (&s));
  o_num (environ[0] == 0);
}

void
do_op (int op)
{
  int pid;
  int n;
  int i;
  int r;
  int s;
  int pids[8];
  int go[8];
  int q[2];
  char *p;
  char *name;
  long t;
  char c;
  o_num (op);
  if (op == 1)
    {
      n = num ();
      pid = child ();
      if (pid == 0)
        exit (n);
      collect (pid);
    }
  else if (op == 2)
    {
      n = num ();
      pid = child ();
      if (pid == 0)
        _exit (n);
      collect (pid);
    }
  else if (op == 3)
    {
      n = num ();
      pid = child ();
      if (pid == 0)
        {
          mark (1);
          r = raise (n);
          o_num (r);
          mark (2);
          _exit (3);
        }
      collect (pid);
    }
  else if (op == 4)
    {
      /* dispositions: ignore and default only */
      n = num ();
      pid = child ();
      if (pid == 0)
        {
          for (i = 0; i < n; i = i + 1)
            {
              s = num ();
              r = num ();
              if (r == 2)
                {
                  mark (s);
                  o_num (kill (getpid (), s));
                  mark (3);
                }
              else if (r == 1)
                o_handler ((long) signal (s, SIG_IGN));
              else
                o_handler ((long) signal (s, SIG_DFL));
            }
          flush_out ();
          _exit (4);
        }
      for (i = 0; i < n + n; i = i + 1)
        num ();
      collect (pid);
    }
  else if (op == 5)
    {
      /* handlers at exit */
      n = num ();
      pid = child ();
      if (pid == 0)
        {
          for (i = 0; i < n; i = i + 1)
            {
              r = num ();
              if (r == 0)
                s = atexit (h0);
              else if (r == 1)
                s = atexit (h1);
              else if (r == 2)
                s = atexit (h2);
              else
                s = atexit (h3);
              o_num (s);
            }
          flush_out ();
          r = num ();
          if (num ())
            _exit (r);
          exit (r);
        }
      for (i = 0; i < n + 2; i = i + 1)
        num ();
      collect (pid);
    }
  else if (op == 6)
    {
      pid = child ();
      if (pid == 0)
        {
          mark (1);
          abort ();
          mark (2);
          _exit (3);
        }
      collect (pid);
    }
  else if (op == 7 || op == 8 || op == 9 || op == 10 || op == 11)
    {
      /* PATH, name, arguments, environment */
      p = str ();
      name = str ();
      n = strs (args, (int) num ());
      i = strs (envs, (int) num ());
      pid = child ();
      if (pid == 0)
        {
          dup2 (pp[1], 501);
          if (p)
            setenv ("PATH", p, 1);
          if (op == 7)
            r = execvp (name, args);
          else if (op == 8)
            r = execve (name, args, envs);
          else if (op == 9)
            r = execv (name, args);
#if !(__GNUC__ && __x86_64__ && !VF_GLIBC)
          else if (op == 10)
            {
              if (n == 2)
                r = execl (name, args[0], args[1], (char *) 0);
              else if (n == 3)
                r = execl (name, args[0], args[1], args[2], (char *) 0);
              else
                r = execl (name, args[0], args[1], args[2], args[3], (char *) 0);
            }
          else if (op == 11)
            {
              if (n == 2)
                r = execlp (name, args[0], args[1], (char *) 0);
              else if (n == 3)
                r = execlp (name, args[0], args[1], args[2], (char *) 0);
              else
                r = execlp (name, args[0], args[1], args[2], args[3], (char *) 0);
            }
#endif
          mark (r);
          _exit (5);
        }
      collect (pid);
    }
  else if (op == 12)
    {
      /* several children, ended and waited for in a given order */
      n = num ();
      flush_out ();
      for (i = 0; i < n; i = i + 1)
        {
          pipe (q);
          pids[i] = fork ();
          if (pids[i] == 0)
            {
              for (s = 0; s < i; s = s + 1)
                close (go[s]);
              close (q[1]);
              read (q[0], &c, 1);
              _exit (10 + i);
            }
          close (q[0]);
          go[i] = q[1];
        }
      while (1)
        {
          r = num ();
          if (r == 0)
            break;
          i = num ();
          if (r == 1)
            close (go[i]);
          else if (r == 2)
            {
              s = -1;
              o_num (waitpid (pids[i], &s, 0) == pids[i]);
              o_num (s);
            }
          else if (r == 3)
            {
              s = -1;
              t = waitpid (pids[i], &s, WNOHANG);
              o_num (t == pids[i]);
              if (t != pids[i])
                o_num (t);
              if (t < 0)
                o_num (errno);
              o_num (s);
            }
          else if (r == 4)
            {
              s = -1;
              t = wait (&s);
              for (i = 0; i < n; i = i + 1)
                if (t == pids[i])
                  o_num (i);
              if (t < 0)
                {
                  o_num (t);
                  o_num (errno);
                }
              o_num (s);
            }
          else if (r == 5)
            {
              s = num ();
              if (pids[i] > 1)
                o_num (kill (pids[i], s));
            }
          else if (r == 6)
            o_num (waitpid (pids[i], 0, 0) == pids[i]);
        }
    }
  else if (op == 13)
    {
      /* through a child and back, on standard input and output */
      p = str ();
      n = str_len;
      s = num ();
      pipe (q);
      pid = child ();
      if (pid == 0)
        {
          close (q[1]);
          lseek (0, 0, SEEK_SET);
          dup2 (q[0], 0);
          dup2 (pp[1], 1);
          close (q[0]);
          close (pp[1]);
          if (s == 0)
            {
              r = getchar ();
              while (r != EOF)
                {
                  putchar (r + 1);
                  r = getchar ();
                }
#ifdef VF_GLIBC
              fflush (stdout);
#endif
            }
          else
            {
              r = read (0, cbuf, s);
              while (r > 0)
                {
                  for (i = 0; i < r; i = i + 1)
                    cbuf[i] = cbuf[i] + 1;
                  write (1, cbuf, r);
                  r = read (0, cbuf, s);
                }
            }
          _exit (6);
        }
      close (q[0]);
      write (q[1], p, n);
      close (q[1]);
      collect (pid);
    }
  else if (op == 14)
    {
      pid = child ();
      if (pid == 0)
        {
          r = getppid ();
          t = getpid ();
          write (out_fd, &r, sizeof (int));
          r = t;
          write (out_fd, &r, sizeof (int));
          _exit (0);
        }
      n = 0;
      r = 1;
      while (r > 0)
        {
          r = read (pp[0], cbuf + n, 100);
          if (r > 0)
            n = n + r;
        }
      close (pp[0]);
      memcpy (&r, cbuf, sizeof (int));
      o_num (r == getpid ());
      memcpy (&r, cbuf + sizeof (int), sizeof (int));
      o_num (r == pid);
      s = 0;
      o_num (wait (&s) == pid);
      o_num (s);
    }
  else if (op == 15)
    rec (0);
  else if (op == 16)
    {
      /* handlers that return */
      n = num ();
      pid = child ();
      if (pid == 0)
        {
          for (i = 0; i < n; i = i + 1)
            {
              s = num ();
              r = num ();
              if (r == 2)
                {
                  o_num (s);
                  flush_out ();
                  r = raise (s);
                  o_num (r);
                  mark (3);
                }
              else if (r == 1)
                o_handler ((long) signal (s, handler));
              else if (r == 3)
                o_handler ((long) signal (s, SIG_IGN));
              else
                o_handler ((long) signal (s, SIG_DFL));
            }
          o_num (handled);
          flush_out ();
          _exit (4);
        }
      for (i = 0; i < n + n; i = i + 1)
        num ();
      collect (pid);
    }
  else if (op == 17)
    {
      struct timeval tv;
      time_t a;
      time_t b;
      struct timespec ts;
      a = time (0);
      o_num (gettimeofday (&tv, 0));
      b = time (&a);
      o_num (a == b);
      o_num (tv.tv_sec >= b - 60 && tv.tv_sec <= b + 60);
      o_num (tv.tv_usec >= 0 && tv.tv_usec < 1000000);
      ts.tv_sec = 0;
      ts.tv_nsec = 1000;
      o_num (nanosleep (&ts, 0));
    }
}
