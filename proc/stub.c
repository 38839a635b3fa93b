// Stand-in for every command a script runs: a seeded plan decides which execution fails, is killed with
// the whole script, or has its effect only in part. Without a plan entry it has its ordinary effect.
// SIMDIR: directory with `plan` (lines: index-or-name.occurrence action k), `log`, and content for stages.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static const char *dir, *root;
static char name[64];

static void die (void) { kill (0, SIGKILL); for (;;) pause (); }

static char *slurp (int fd, size_t *n)
{
  size_t cap = 1 << 16; char *b = malloc (cap); *n = 0;
  for (;;)
    {
      if (*n == cap) b = realloc (b, cap *= 2);
      ssize_t r = read (fd, b + *n, cap - *n);
      if (r < 0 && errno == EINTR) continue;
      if (r <= 0) break;
      *n += r;
    }
  return b;
}

static int put (int fd, const char *b, size_t n)
{
  while (n)
    {
      ssize_t r = write (fd, b, n);
      if (r < 0 && errno == EINTR) continue;
      if (r < 0) return -1;
      b += r; n -= r;
    }
  return 0;
}

static char *content (const char *f, size_t *n)
{
  char p[PATH_MAX]; snprintf (p, sizeof p, "%s/%s", dir, f);
  int fd = open (p, O_RDONLY); *n = 0;
  if (fd < 0) return NULL;
  char *b = slurp (fd, n); close (fd); return b;
}

// all path operands stay below the scratch directory
static int contained (int argc, char **argv)
{
  for (int i = 1; i < argc; ++i)
    {
      if (argv[i][0] == '-' && argv[i][1]) continue;
      char t[PATH_MAX], r[PATH_MAX]; snprintf (t, sizeof t, "%s", argv[i]);
      if (!realpath (t, r) && !realpath (dirname (t), r)) continue; // does not exist: cannot be changed
      if (!strcmp (r, "/dev/null")) continue;
      if (strncmp (r, root, strlen (root))) return 0;
    }
  return 1;
}

static int real (char **argv)
{
  pid_t p = fork ();
  if (p == 0)
    {
      char b[128]; snprintf (b, sizeof b, "/usr/bin/%s", name); execv (b, argv);
      snprintf (b, sizeof b, "/bin/%s", name); execv (b, argv); _exit (127);
    }
  int s = 0; waitpid (p, &s, 0);
  return WIFEXITED (s) ? WEXITSTATUS (s) : 128 + WTERMSIG (s);
}

static char *operand (int argc, char **argv, int last)
{
  char *o = NULL;
  for (int i = 1; i < argc; ++i)
    if (argv[i][0] != '-' || !argv[i][1]) { o = argv[i]; if (!last) return o; }
  return o;
}

// what goes to standard output or the target of a stage: the first k bytes of it (all if k < 0)
static int effect (int argc, char **argv, long k)
{
  size_t n, m; char *b;
  if (!strcmp (name, "convert"))   // the command of foreach: convert [options] source target
    {
      if (argc < 3) return 2;
      int in = open (argv[argc - 2], O_RDONLY);
      if (in < 0) return 1;
      b = slurp (in, &n); close (in);
      int out = open (argv[argc - 1], O_WRONLY | O_CREAT | O_TRUNC, 0666);
      if (out < 0) return 1;
      char *t = malloc (n + 16 + n); size_t z = sprintf (t, "<%d>", argc - 3);
      for (size_t i = 0; i < n; ++i) t[z++] = b[i] == '\n' ? b[i] : b[i] ^ 1;
      z += sprintf (t + z, "</>");
      return put (out, t, k < 0 || (size_t) k > z ? z : (size_t) k) ? 1 : 0;
    }
  if (!strcmp (name, "ecom") || !strcmp (name, "emod") || !strcmp (name, "elog") || !strcmp (name, "analysis"))
    {
      char *in = slurp (0, &m), want[80]; size_t w;
      // a stage with the input it expects writes what it should, otherwise a part of it
      snprintf (want, sizeof want, "%s.in", name);
      char *x = content (want, &w);
      snprintf (want, sizeof want, "%s.out", name);
      b = content (want, &n);
      int same = x && m == w && !memcmp (in, x, w);
      if (!strcmp (name, "analysis"))
        {
          char c[4096] = "", *e; size_t cn; for (int i = 1; i < argc; ++i) { strcat (c, argv[i]); strcat (c, "\n"); }
          e = content ("analysis.args", &cn);
          same = same && e && cn == strlen (c) && !memcmp (e, c, cn);
          if (!same) { put (2, "Error\n", 6); n /= 3; if (k < 0 || (size_t) k > n) k = n; }
          // what really was written
          char w2[PATH_MAX]; snprintf (w2, sizeof w2, "%s/wrote", dir);
          int fd = open (w2, O_WRONLY | O_CREAT | O_TRUNC, 0666); put (fd, b, k < 0 || (size_t) k > n ? n : (size_t) k); close (fd);
          if (!same) { put (1, b, k); return 16; }
        }
      else if (!same)
        n = n * (m < w ? m : w) / (w ? w : 1);
      if (put (1, b, k < 0 || (size_t) k > n ? n : (size_t) k)) return 1;
      return 0;
    }
  if (!strcmp (name, "tee") && k >= 0)
    {
      char *o = operand (argc, argv, 1);
      b = slurp (0, &n); if ((size_t) k < n) n = k;
      int fd = o ? open (o, O_WRONLY | O_CREAT | O_TRUNC, 0666) : -1;
      if (fd >= 0) { put (fd, b, n); close (fd); }
      put (1, b, n);
      return 1;
    }
  if (k >= 0 && (!strcmp (name, "cp") || !strcmp (name, "mv") || !strcmp (name, "install")))
    {
      // a copy cut short; a rename has no part
      char *s = operand (argc, argv, 0), *d = operand (argc, argv, 1), p[PATH_MAX];
      if (!s || !d || s == d || !strcmp (name, "mv")) return 1;
      struct stat st; snprintf (p, sizeof p, "%s", d);
      if (!stat (d, &st) && S_ISDIR (st.st_mode)) { char t[PATH_MAX]; snprintf (t, sizeof t, "%s", s); snprintf (p, sizeof p, "%s/%s", d, basename (t)); }
      int in = open (s, O_RDONLY); if (in < 0) return 1;
      b = slurp (in, &n); close (in);
      int out = open (p, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (out < 0) return 1;
      put (out, b, (size_t) k > n ? n : (size_t) k); close (out);
      return 1;
    }
  if (k >= 0 && !strcmp (name, "rm"))
    {
      for (int i = 1; i < argc; ++i) if (argv[i][0] != '-') { if (k-- <= 0) break; unlink (argv[i]); }
      return 1;
    }
  if (k >= 0 && (!strcmp (name, "cat") || !strcmp (name, "dd")))
    {
      char *s = operand (argc, argv, 0);
      int in = s ? open (s, O_RDONLY) : 0; if (in < 0) return 1;
      b = slurp (in, &n); put (1, b, (size_t) k > n ? n : (size_t) k);
      return 1;
    }
  return real (argv);
}

int main (int argc, char **argv)
{
  char t[PATH_MAX]; snprintf (t, sizeof t, "%s", argv[0]); snprintf (name, sizeof name, "%s", basename (t));
  if (!strcmp (name, "azafran") || !strcmp (name, "curcuma") || !strcmp (name, "mascada") || !strcmp (name, "oregano")) strcpy (name, "analysis");
  dir = getenv ("SIMDIR"); root = getenv ("SIMROOT");
  if (!dir || !root) return 99;
  // number of this execution, overall and by name
  char p[PATH_MAX]; snprintf (p, sizeof p, "%s/log", dir);
  int fd = open (p, O_RDWR | O_CREAT | O_APPEND, 0666);
  flock (fd, LOCK_EX);
  size_t n; char *l = slurp (fd, &n); long idx = 0, occ = 0; size_t nl = strlen (name);
  for (size_t i = 0; i < n; ++i)
    if (i == 0 || l[i - 1] == '\n') { ++idx; if (n - i > nl && !strncmp (l + i, name, nl) && (l[i + nl] == ' ' || l[i + nl] == '\n')) ++occ; }
  char line[8192]; size_t z = snprintf (line, sizeof line, "%s", name);
  for (int i = 1; i < argc && z < 8000; ++i) z += snprintf (line + z, sizeof line - z, " %.200s", argv[i]);
  for (size_t i = 0; i < z; ++i) if (line[i] == '\n') line[i] = ' ';
  line[z++] = '\n'; put (fd, line, z); flock (fd, LOCK_UN); close (fd);
  if (strcmp (name, "ecom") && strcmp (name, "emod") && strcmp (name, "elog") && strcmp (name, "analysis") && strcmp (name, "grep") && strcmp (name, "basename")
      && strcmp (name, "dirname") && !contained (argc, argv))
    {
      snprintf (p, sizeof p, "%s/escape", dir); fd = open (p, O_WRONLY | O_CREAT | O_APPEND, 0666); put (fd, line, z); return 99;
    }
  size_t pn; char *plan = content ("plan", &pn), key[80], act[32] = ""; long k = -1;
  if (plan)
    {
      plan = realloc (plan, pn + 1); plan[pn] = 0;
      for (char *s = strtok (plan, "\n"); s; s = strtok (NULL, "\n"))
        {
          char a[32]; long b; if (sscanf (s, "%79s %31s %ld", key, a, &b) < 3) continue;
          char me[80], me2[80]; snprintf (me, sizeof me, "%ld", idx); snprintf (me2, sizeof me2, "%s.%ld", name, occ);
          if (!strcmp (key, me) || !strcmp (key, me2)) { strcpy (act, a); k = b; }
        }
    }
  if (!act[0]) return effect (argc, argv, -1);
  if (!strcmp (act, "fail"))
    {
      // the stages of a pipeline take their input first: what the others see must not depend on who is faster
      if (!strcmp (name, "elog") || !strcmp (name, "emod") || !strcmp (name, "ecom") || !strcmp (name, "analysis") || !strcmp (name, "tee")) slurp (0, &n);
      return 1;
    }
  if (!strcmp (act, "kill")) die ();
  if (!strcmp (act, "afterkill")) { effect (argc, argv, -1); die (); }
  if (!strcmp (act, "afterfail")) { effect (argc, argv, -1); return 1; }
  if (!strcmp (act, "partkill")) { effect (argc, argv, k); die (); }
  if (!strcmp (act, "partfail")) { effect (argc, argv, k); return 1; }
  if (!strcmp (act, "partok")) { effect (argc, argv, k); return 0; }          // dies unnoticed
  if (!strcmp (act, "partsignal")) { effect (argc, argv, k); signal (SIGTERM, SIG_DFL); raise (SIGTERM); return 1; }
  return 98;
}
