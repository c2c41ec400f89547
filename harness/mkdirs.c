/* mkdirs uid umask mode path...: ensures the directories one after the other */
#include <err.h>
#include <grp.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include "palm/filesystem.h"
int main(int argc, char **argv)
{
    int uid = atoi(argv[1]);
    if (uid && (setgid(uid) || setuid(uid))) return 99;
    umask(strtol(argv[2], NULL, 8));
    for (int i = 4; i < argc; i++) {
        FSensureDirExists(argv[i], strtol(argv[3], NULL, 8));
        printf("%d\n", i - 3);
        fflush(stdout);
    }
    return 0;
}
