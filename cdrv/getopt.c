/* Command line parsing: getopt, getopt_long, getopt_long_only. */
#include "base.h"
#ifdef VF_GLIBC
#include <getopt.h>
#else
extern char *optarg;
extern int optind;
extern int opterr;
struct option
{
  char const *name;
  int has_arg;
  int *flag;
  int val;
};
int getopt (int argc, char *const *argv, char const *options);
int getopt_long (int argc, char *const *argv, char const *options,
                 struct option const *long_options, int *opt_index);
int getopt_long_only (int argc, char *const *argv, char const *options,
                      struct option const *long_options, int *opt_index);
#endif

struct option lo[20];
int flags[20];
char *av[60];
char optbuf[100];

void
reset (void)
{
}

void
finish (void)
{
}

void
do_op (int op)
{
  int kind = num ();
  char *o = str ();
  int n = num ();
  int i;
  int r;
  int ac;
  int idx;
  int stop;
  char *p = optbuf;
#ifdef VF_GLIBC
  /* the Mes library never permutes, as POSIXLY_CORRECT */
  p[0] = '+';
  p = p + 1;
#endif
  i = 0;
  while (o[i] != 0)
    {
      p[i] = o[i];
      i = i + 1;
    }
  p[i] = 0;
  for (i = 0; i < n; i = i + 1)
    {
      lo[i].name = str ();
      lo[i].has_arg = num ();
      flags[i] = 0;
      if (num ())
        lo[i].flag = &flags[i];
      else
        lo[i].flag = 0;
      lo[i].val = num ();
    }
  lo[n].name = 0;
  lo[n].has_arg = 0;
  lo[n].flag = 0;
  lo[n].val = 0;
  ac = num ();
  for (i = 0; i < ac; i = i + 1)
    av[i] = str ();
  av[ac] = 0;
  stop = num ();
  optind = 0;
  opterr = 0;
  r = 0;
  i = 0;
  while (r != -1 && i < 100 && i != stop)
    {
      idx = -7;
      if (kind == 0)
        r = getopt (ac, av, optbuf);
      else if (kind == 1)
        r = getopt_long (ac, av, optbuf, lo, &idx);
      else
        r = getopt_long_only (ac, av, optbuf, lo, &idx);
      o_num (r);
      if (r != '?')
        o_str (optarg);
      o_num (optind);
      if (r != '?' && r != -1)
        o_num (idx);
      i = i + 1;
    }
  o_num (optind);
  for (i = 0; i < ac; i = i + 1)
    o_str (av[i]);
  for (i = 0; i < n; i = i + 1)
    o_num (flags[i]);
}
