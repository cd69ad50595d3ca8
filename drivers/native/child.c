/* The child process of the C24 histories: carries out the script in its arguments. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char **environ;
static void put(int fd, const char *s, size_t n) {
	while (n > 0) {
		ssize_t r = write(fd, s, n);
		if (r <= 0) _exit(77);
		s += r;
		n -= r;
	}
}
int main(int argc, char **argv) {
	for (int i = 1; i < argc; i++) {
		unsigned char *x = (unsigned char *) argv[i] + 1;
		switch (argv[i][0]) {
		case 'o': put(1, (char *) x, strlen((char *) x)); break;
		case 'e': put(2, (char *) x, strlen((char *) x)); break;
		case 'r':
			for (int k = 0; k < *x; k++) {
				char c;
				if (read(0, &c, 1) != 1) _exit(78);
				put(1, &c, 1);
			}
			break;
		case 'R': {
			char c;
			int n = 0;
			while (read(0, &c, 1) == 1) n++;
			_exit(n % 200);
		}
		case 'a': for (char **a = argv; *a; a++) { put(1, *a, strlen(*a)); put(1, "\n", 1); } break;
		case 'v': for (char **a = environ; *a; a++) { put(1, *a, strlen(*a)); put(1, "\n", 1); } break;
		case 'b': {
			char kb[1024];
			memset(kb, 'z', 1024);
			for (int k = 0; k < *x; k++) put(1, kb, 1024);
			break;
		}
		case 'x': _exit(*x - 1);
		case 'k': kill(getpid(), SIGKILL); break;
		case 'c': close(1); break;
		case 's': usleep(1000 * *x); break;
		}
	}
	_exit(0);
}
