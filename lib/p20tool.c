#include <errno.h>
#include <unistd.h>
#include "p20tool.h"
rd_script RD;
static ssize_t t_read(int fd, void *b, size_t n)
{
    if (RD.on) {
        int i = RD.call++;
        if (RD.fail_at && i + 1 == RD.fail_at) { errno = RD.fail_errno; return -1; }
        if (RD.n) { size_t c = RD.chunk[i < RD.n ? i : RD.n - 1]; if (n > c) n = c; }
    }
    return read(fd, b, n);
}
#define main tool_main
#define read t_read
#ifdef VARIANT_GOST12
# define start_hash t_start_hash
# define hash_block t_hash_block
# define finish_hash t_finish_hash
# include "gost12sum.c"
#else
# include "gostsum.c"
#endif
