/* stand-in for kill: records the target and signal instead of sending anything */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/types.h>
#include <unistd.h>
int kill (pid_t pid, int sig) {
    char b[64]; int n = snprintf (b, sizeof b, "%d %d\n", (int)pid, sig);
    int f = open (getenv ("KILLREC"), O_WRONLY|O_APPEND|O_CREAT, 0666);
    if (f >= 0) { if (write (f, b, n) < 0) abort (); close (f); }
    return 0;
}
