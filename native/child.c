/* The program which spawned processes run: reports what it was given, then does as told.
 * child REPORT ACTION... : REPORT is a path or "-". */
#include <ctype.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
extern char **environ;

static void hex(FILE *f, const char *tag, const char *s, size_t n)
{
    fprintf(f, "%s ", tag);
    while (n--) fprintf(f, "%02x", (unsigned char)*s++);
    fprintf(f, "\n");
}

static void nap(long ms) { struct timespec t = { ms / 1000, ms % 1000 * 1000000L }; nanosleep(&t, 0); }

/* Children of our parent other than us; zombies or still running */
static void siblings(int *zombies, int *running)
{
    DIR *d = opendir("/proc");
    struct dirent *e;
    *zombies = *running = 0;
    while (d && (e = readdir(d))) {
        char path[300], buf[1024], state; int ppid; FILE *f; size_t n; char *p;
        if (!isdigit((unsigned char)e->d_name[0]) || atoi(e->d_name) == getpid()) continue;
        snprintf(path, sizeof path, "/proc/%s/stat", e->d_name);
        if (!(f = fopen(path, "r"))) continue;
        n = fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[n] = 0;
        p = strrchr(buf, ')');
        if (p && sscanf(p + 1, " %c %d", &state, &ppid) == 2 && ppid == getppid()) {
            if (state == 'Z') ++*zombies; else ++*running;
        }
    }
    if (d) closedir(d);
}

int main(int argc, char **argv)
{
    FILE *f = 0; int i, fd, isopen[256]; char cwd[8192];
    for (fd = 0; fd < 256; fd++) isopen[fd] = fcntl(fd, F_GETFD) != -1;
    if (argc > 1 && strcmp(argv[1], "-")) {
        if (!(f = fopen(argv[1], "w"))) return 201;
        for (i = 0; i < argc; i++) hex(f, "arg", argv[i], strlen(argv[i]));
        for (i = 0; environ[i]; i++) hex(f, "env", environ[i], strlen(environ[i]));
        if (getcwd(cwd, sizeof cwd)) hex(f, "cwd", cwd, strlen(cwd));
        for (fd = 0; fd < 256; fd++) if (isopen[fd]) fprintf(f, "fd %d\n", fd);
        fprintf(f, "pid %d\n", (int)getpid());
    }
    for (i = 2; i < argc; i++) {
        const char *a = argv[i] + 1; long n = atol(a);
        switch (argv[i][0]) {
        case '-': goto done;
        case 'e': if (f) fclose(f); _exit((int)n);
        case 's': if (f) fclose(f); signal((int)n, SIG_DFL); raise((int)n); pause(); break;
        case 't': raise(SIGSTOP); break;
        case 'n': nap(n); break;
        case 'w': if (write(1, a, strlen(a)) < 0) _exit(202); break;
        case 'W': if (write(2, a, strlen(a)) < 0) _exit(203); break;
        case 'r': {
            static char buf[1 << 20]; size_t len = 0; ssize_t k;
            while (len < sizeof buf && (k = read(0, buf + len, sizeof buf - len)) > 0) len += (size_t)k;
            if (f) hex(f, "in", buf, len);
            break; }
        case 'c': {   /* copies its input to its output */
            static char buf[4096]; ssize_t k;
            while ((k = read(0, buf, sizeof buf)) > 0) if (write(1, buf, (size_t)k) != k) _exit(204);
            break; }
        case 'z': {   /* waits for the siblings to finish; exits with the number of zombies */
            int z, r, k;
            for (k = 0; k < 300; k++) { siblings(&z, &r); if (!r) break; nap(20); }
            _exit(r ? 250 : z > 200 ? 200 : z); }
        }
    }
done:
    if (f) fclose(f);
    return 0;
}
