// killat.c - kill a program at a chosen step towards the kernel.
//
//   killat N LOG PROG ARG...   runs PROG and kills it at the N-th stop (entry
//                              into or return from a system call; never if 0)
// Writes "STOPS KILLED STATUS" to LOG.  Exit 2 if tracing does not work.

#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ptrace.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

int
main (int argc, char *argv[])
{
    if (argc < 4)
        return 2;
    const long n = atol (argv[1]);
    const pid_t pid = fork();
    if (pid < 0)
        return 2;
    if (pid == 0) {
        if (ptrace (PTRACE_TRACEME, 0, NULL, NULL) != 0)
            _exit (126);
        raise (SIGSTOP);
        execv (argv[3], argv + 3);
        _exit (127);
    }

    int status;
    if (waitpid (pid, &status, 0) != pid || !WIFSTOPPED (status))
        return 2;
    if (ptrace (PTRACE_SETOPTIONS, pid, NULL,
                PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL) != 0)
        return 2;

    long stops = 0;
    int killed = 0;
    int sig = 0;
    for (;;) {
        if (!killed && ptrace (PTRACE_SYSCALL, pid, NULL, (void *) (long) sig) != 0
            && errno != ESRCH)
            return 2;
        if (waitpid (pid, &status, 0) != pid)
            return 2;
        if (WIFEXITED (status) || WIFSIGNALED (status))
            break;
        sig = 0;
        if (WSTOPSIG (status) == (SIGTRAP | 0x80)) {
            if (++stops == n) {
                kill (pid, SIGKILL);
                killed = 1;
            }
        } else if (WSTOPSIG (status) != SIGTRAP) {
            sig = WSTOPSIG (status);
        }
    }

    FILE *log = fopen (argv[2], "w");
    if (!log)
        return 2;
    fprintf (log, "%ld %d %d\n", stops, killed,
             WIFEXITED (status) ? WEXITSTATUS (status) : 128 + WTERMSIG (status));
    return fclose (log) != 0 ? 2 : 0;
}
