/* prints its arguments and environment, each in hexadecimal, one per line */
#include <stdio.h>
extern char **environ;
static void hex (char c, const char *s) { putchar (c); for (; *s; s++) printf ("%02x", (unsigned char)*s); putchar ('\n'); }
int main (int argc, char **argv) { int i; for (i = 0; i < argc; i++) hex ('a', argv[i]); for (i = 0; environ[i]; i++) hex ('e', environ[i]); return 3; }
