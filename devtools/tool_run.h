// runs the program in a child process with the given input
#include <unistd.h>
#include <sys/wait.h>
int tool_main(int argc, char** argv);
static char tool_out[200000];
static int tool_run(char** argv, const char* input)
{
	int st, argc = 0;
	FILE* o = tmpfile();
	FILE* i = tmpfile();
	size_t n;
	pid_t p;
	while (argv[argc]) { ++argc; }
	fputs(input, i); fflush(i); rewind(i);
	fflush(stdout);
	p = fork();
	if (p == 0) {
		dup2(fileno(i), 0); dup2(fileno(o), 1);
		alarm(20);
		exit(tool_main(argc, argv));
	}
	waitpid(p, &st, 0);
	rewind(o);
	n = fread(tool_out, 1, sizeof(tool_out) - 1, o);
	tool_out[n] = 0;
	fclose(o); fclose(i);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
