#include "base.h"
#ifdef VF_GLIBC
#include <sys/time.h>
#endif

#ifndef VF_GLIBC
int _open3 (char const *file_name, int flags, int mask);
#if __GNUC__ && __x86_64__
/* gcc's calling convention is not that of the library's <stdarg.h> */
#define open(n, f, m) _open3 (n, f, m)
#endif
#endif

/* Everything happens below the directory the driver is started in: names are relative, without "..". */

#define SLOTS 8
int fds[SLOTS];
FILE *files[SLOTS];
int case_no;
char base[1000];
char buf[9000];
char *list[300];
char list_pool[20000];

void
o_err (long r)
{
  o_num (r);
  if (r < 0)
    o_num (errno);
}

void
std_file (int fd, char *name)
{
  int t = open (name, O_RDWR | O_CREAT | O_TRUNC, 0644);
  /* nothing read ahead */
  lseek (fd, 0, SEEK_SET);
  dup2 (t, fd);
  close (t);
#ifdef VF_GLIBC
  if (fd == 0)
    {
      fseek (stdin, 0, SEEK_SET);
      clearerr (stdin);
      setvbuf (stdin, 0, _IONBF, 0);
    }
  if (fd == 1)
    setvbuf (stdout, 0, _IONBF, 0);
#else
  __ungetc_clear (fd);
#endif
}

void
reset (void)
{
  int i;
  char name[30];
  if (case_no == 0)
    {
      getcwd (base, 1000);
      for (i = 0; i < SLOTS; i = i + 1)
        fds[i] = -1;
    }
  case_no = case_no + 1;
  chdir (base);
  for (i = 0; i < SLOTS; i = i + 1)
    {
      if (fds[i] >= 0)
        close (fds[i]);
      fds[i] = -1;
      if (files[i])
        fclose (files[i]);
      files[i] = 0;
    }
  name[0] = 'c';
  name[1] = 48 + (case_no / 100) % 10;
  name[2] = 48 + (case_no / 10) % 10;
  name[3] = 48 + case_no % 10;
  name[4] = 0;
  mkdir (name, 0777);
  if (chdir (name) < 0)
    _exit (96);
  if (out_fd != 1)
    {
      std_file (1, "o");
      std_file (2, "e");
      std_file (0, "i");
    }
}

int
str_less (char *a, char *b)
{
  while (*a && *a == *b)
    {
      a = a + 1;
      b = b + 1;
    }
  return (*a & 0xff) < (*b & 0xff);
}

void
o_stat (struct stat *s)
{
  o_num (s->st_mode & 0xffff);
  o_num (s->st_nlink);
  o_num (s->st_uid);
  o_num (s->st_gid);
  if ((s->st_mode & 0170000) == 0100000 || (s->st_mode & 0170000) == 0120000)
    o_num (s->st_size);
}

void
o_dir (char *name)
{
  DIR *d = opendir (name);
  struct dirent *e;
  int n = 0;
  int i;
  int j;
  int k = 0;
  char *t;
  if (d == 0)
    {
      o_num (-1);
      o_num (errno);
      return;
    }
  e = readdir (d);
  while (e && n < 290)
    {
      list[n] = list_pool + k;
      i = 0;
      while (e->d_name[i])
        {
          list_pool[k] = e->d_name[i];
          i = i + 1;
          k = k + 1;
        }
      list_pool[k] = 0;
      k = k + 1;
      n = n + 1;
      e = readdir (d);
    }
  o_num (n);
  for (i = 0; i < n; i = i + 1)
    for (j = i + 1; j < n; j = j + 1)
      if (str_less (list[j], list[i]))
        {
          t = list[i];
          list[i] = list[j];
          list[j] = t;
        }
  for (i = 0; i < n; i = i + 1)
    o_str (list[i]);
  o_num (closedir (d));
}

/* the tree as it is left */
void
o_file (char *name)
{
  struct stat s;
  int fd;
  int n;
  if (stat (name, &s) < 0)
    return;
  if ((s.st_mode & 0170000) != 0100000)
    return;
  fd = open (name, 0, 0);
  n = read (fd, buf, 9000);
  o_str (name);
  o_num (n);
  if (n > 0)
    o_mem (buf, n);
  close (fd);
}

void
finish (void)
{
  char name[30];
  int i;
  for (i = 0; i < SLOTS; i = i + 1)
    {
      if (fds[i] >= 0)
        close (fds[i]);
      fds[i] = -1;
      if (files[i])
        fclose (files[i]);
      files[i] = 0;
    }
  chdir (base);
  name[0] = 'c';
  name[1] = 48 + (case_no / 100) % 10;
  name[2] = 48 + (case_no / 10) % 10;
  name[3] = 48 + case_no % 10;
  name[4] = 0;
  chdir (name);
  o_file ("o");
  o_file ("e");
  o_file ("a");
  o_file ("b");
  o_file ("c");
  o_file ("d/a");
  o_file ("d/b");
  o_file ("d/c");
  o_dir (".");
  o_dir ("d");
}

FILE *
unbuffered (FILE *f)
{
#ifdef VF_GLIBC
  if (f)
    setvbuf (f, 0, _IONBF, 0);
#endif
  return f;
}

void
do_op (int op)
{
  int k;
  int i;
  long n;
  long m;
  int r;
  char *p;
  char *q;
  struct stat s;
  FILE *f;
  o_num (op);
  if (op < 30)
    {
      /* descriptors */
      k = num ();
      if (op == 1)
        {
          p = str ();
          n = num ();
          m = num ();
          if (fds[k] >= 0)
            close (fds[k]);
          r = 0;
          if (n & 1)
            r = r | O_WRONLY;
          if (n & 2)
            r = r | O_RDWR;
          if (n & 4)
            r = r | O_CREAT;
          if (n & 8)
            r = r | O_EXCL;
          if (n & 16)
            r = r | O_TRUNC;
          if (n & 32)
            r = r | O_APPEND;
          if (n & 64)
            r = r | O_DIRECTORY;
          fds[k] = -1;
          if (stat (p, &s) == 0)
            if ((s.st_mode & 0170000) == 0010000)
              {
                o_num (-5);
                return;
              }
          fds[k] = open (p, r, (int) m);
          o_err (fds[k]);
        }
      else if (op == 2)
        {
          o_err (close (fds[k]));
          fds[k] = -1;
        }
      else if (op == 3)
        {
          n = num ();
          for (i = 0; i < n + 20; i = i + 1)
            buf[i] = 'Z';
          r = read (fds[k], buf, n);
          o_err (r);
          if (r > 0)
            o_mem (buf, r);
          for (i = 0; i < 20; i = i + 1)
            if (buf[n + i] != 'Z')
              o_num (-77);
        }
      else if (op == 4)
        {
          p = str ();
          n = str_len;
          o_err (write (fds[k], p, n));
        }
      else if (op == 5)
        {
          n = num ();
          m = num ();
          /* positions in a directory depend on the file system */
          if (fstat (fds[k], &s) == 0 && (s.st_mode & 0170000) == 0040000)
            o_num (-78);
          else
            o_err (lseek (fds[k], n, (int) m));
        }
      else if (op == 6)
        {
          i = num ();
          if (i == k)
            return;
          if (fds[i] >= 0)
            close (fds[i]);
          fds[i] = dup (fds[k]);
          o_err (fds[i]);
        }
      else if (op == 7)
        {
          i = num ();
          o_err (dup2 (fds[k], fds[i]));
        }
      else if (op == 8)
        {
          r = fstat (fds[k], &s);
          o_err (r);
          if (r == 0)
            o_stat (&s);
        }
      else if (op == 9)
        {
          /* a pipe in slots K and K+1 */
          int pp[2];
          i = (k + 1) % SLOTS;
          if (fds[i] >= 0)
            close (fds[i]);
          if (fds[k] >= 0)
            close (fds[k]);
          o_err (pipe (pp));
          fds[k] = pp[0];
          fds[i] = pp[1];
          p = str ();
          o_err (write (pp[1], p, str_len));
          close (pp[1]);
          fds[i] = -1;
        }
      else if (op == 10)
        {
          n = num ();
          r = fcntl (fds[k], F_GETFD, 0);
          o_err (r);
          if (r >= 0)
            {
              o_err (fcntl (fds[k], F_SETFD, (int) n));
              o_num (fcntl (fds[k], F_GETFD, 0));
            }
        }
      else if (op == 11)
        o_err (fsync (fds[k]) == 0);
      else if (op == 12)
        o_num (isatty (fds[k]));
    }
  else if (op < 60)
    {
      /* names */
      if (op == 46)
        {
          getcwd (buf, 9000);
          n = 0;
          while (base[n])
            n = n + 1;
          m = n + 5;
          o_str (buf + m);
          return;
        }
      p = str ();
      if (op == 30)
        o_err (access (p, (int) num ()));
      else if (op == 31)
        o_err (chmod (p, (int) num ()));
      else if (op == 32)
        { q = str (); o_err (link (p, q)); }
      else if (op == 33)
        { q = str (); o_err (symlink (p, q)); }
      else if (op == 34)
        {
          n = num ();
          for (i = 0; i < n + 20; i = i + 1)
            buf[i] = 'Z';
          r = readlink (p, buf, n);
          o_err (r);
          if (r > 0)
            o_mem (buf, r + 1);
        }
      else if (op == 35)
        { q = str (); o_err (rename (p, q)); }
      else if (op == 36)
        o_err (rmdir (p));
      else if (op == 37)
        o_err (mkdir (p, (int) num ()));
      else if (op == 38)
        o_err (unlink (p));
      else if (op == 39)
        {
          r = stat (p, &s);
          o_err (r);
          if (r == 0)
            o_stat (&s);
        }
      else if (op == 40)
        {
          r = lstat (p, &s);
          o_err (r);
          if (r == 0)
            o_stat (&s);
        }
      else if (op == 41)
        o_err (mknod (p, S_IFIFO | 0600, 0));
      else if (op == 42)
        o_dir (p);
      else if (op == 43)
        o_err (remove (p));
      else if (op == 44)
        o_err (chdir (p));
    }
  else if (op >= 80)
    {
      /* standard streams */
      if (op == 80)
        {
          p = str ();
          n = str_len;
          std_file (0, "i");
          write (0, p, n);
          lseek (0, 0, SEEK_SET);
        }
      else if (op == 81)
        o_num (getchar ());
      else if (op == 82)
        {
          r = getchar ();
          o_num (r);
          if (r >= 0)
            o_num (ungetc (r, stdin));
        }
      else if (op == 83)
        {
          n = num ();
          for (i = 0; i < n + 20; i = i + 1)
            buf[i] = 'Z';
          p = fgets (buf, n, stdin);
          o_num (p == buf);
          if (p)
            o_str (p);
          for (i = 0; i < 20; i = i + 1)
            if (buf[n + i] != 'Z')
              o_num (-77);
        }
      else if (op == 84)
        {
          n = num ();
          r = fread (buf, 1, n, stdin);
          o_num (r);
          if (r > 0)
            o_mem (buf, r);
        }
      else if (op == 85)
        o_num (putchar ((int) num ()));
      else if (op == 86)
        o_num (puts (str ()) >= 0);
      else if (op == 87)
        o_num (fputs (str (), stdout) >= 0);
      else if (op == 88)
        o_num (fputs (str (), stderr) >= 0);
      else if (op == 89)
        {
          r = num ();
          p = str ();
#if __GNUC__ && __x86_64__ && !VF_GLIBC
          fputs (itoa (r), stdout);
          fputs ("/", stdout);
          fputs (p, stdout);
          o_num (strlen (itoa (r)) + 1 + strlen (p));
#else
          o_num (printf ("%d/%s", r, p));
#endif
        }
    }
  else
    {
      /* streams */
      k = num ();
      f = files[k];
      if (op == 60 || op == 76)
        {
          p = str ();
          q = str ();
          if (f && op == 60)
            fclose (f);
          if (f && op == 76)
            files[k] = unbuffered (freopen (p, q, f));
          else
            files[k] = unbuffered (fopen (p, q));
          o_num (files[k] != 0);
          if (files[k] == 0)
            o_num (errno);
          return;
        }
      if (f == 0)
        {
          while (script[script_pos] != '\n')
            script_pos = script_pos + 1;
          return;
        }
      if (op == 61)
        {
          o_num (fclose (f));
          files[k] = 0;
        }
      else if (op == 62)
        {
          n = num ();
          m = num ();
          for (i = 0; i < n * m + 20; i = i + 1)
            buf[i] = 'Z';
          r = fread (buf, n, m, f);
          o_num (r);
          if (r > 0)
            o_mem (buf, r * n);
          for (i = 0; i < 20; i = i + 1)
            if (buf[n * m + i] != 'Z')
              o_num (-77);
        }
      else if (op == 63)
        {
          n = num ();
          p = str ();
          o_num (fwrite (p, n, str_len / n, f));
        }
      else if (op == 64)
        o_num (fgetc (f));
      else if (op == 65)
        o_num (getc (f));
      else if (op == 66)
        {
          r = num ();
          o_num (fputc (r, f));
        }
      else if (op == 67)
        o_num (fputs (str (), f) >= 0);
      else if (op == 68)
        {
          n = num ();
          for (i = 0; i < n + 20; i = i + 1)
            buf[i] = 'Z';
          p = fgets (buf, n, f);
          o_num (p == buf);
          if (p)
            o_str (p);
          for (i = 0; i < 20; i = i + 1)
            if (buf[n + i] != 'Z')
              o_num (-77);
        }
      else if (op == 69)
        {
          /* put the character just read back */
          r = fgetc (f);
          o_num (r);
          if (r >= 0)
            {
              o_num (ungetc (r, f));
              n = num ();
              if (n == 1)
                o_num (fgetc (f));
            }
          else
            n = num ();
        }
      else if (op == 70)
        {
          n = num ();
          m = num ();
          o_num (fseek (f, n, (int) m));
        }
      else if (op == 71)
        o_num (ftell (f));
      else if (op == 72)
        {
          /* at the end: a character read says so first */
          r = fgetc (f);
          o_num (r);
          if (r < 0)
            o_num (feof (f) != 0);
        }
      else if (op == 73)
        o_num (ferror (f) != 0);
      else if (op == 74)
        {
          r = num ();
          o_num (putc (r, f));
        }
      else if (op == 75)
        {
          r = num ();
          o_num (r);
#if __GNUC__ && __x86_64__ && !VF_GLIBC
          fputs ("<", f);
          fputs (itoa (r), f);
          fputs (">", f);
#else
          fprintf (f, "<%d>", r);
#endif
        }
    }
}
