/* The checksum tool under its own roof: the reads of the files to be digested
 * are under the control of a script. */
#include <sys/types.h>
typedef struct { int on, call, chunk[8], n, fail_at, fail_errno; } rd_script;
extern rd_script RD;
int tool_main(int argc, char **argv);
