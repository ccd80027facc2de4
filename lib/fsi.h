/* File system calls of the program and of GLib, failing as the harness decides.
 * Defined as global symbols so that calls from shared libraries end here too. */
#ifndef VERIF_FSI_H
#define VERIF_FSI_H
#include <stddef.h>
enum { FSI_OK, FSI_FAIL, FSI_SHORT, FSI_EOF, FSI_EINTR };
/* Called before every call on a path below fsi_root (or a descriptor of one),
 * while set. what: "open" "write" "read" "mkdir" "unlink" "seek" "rename" "fsync" "close". */
extern int (*fsi_pick)(const char *what, const char *path, size_t n);
extern const char *fsi_root;
extern int fsi_errno;               /* what FSI_FAIL sets, default EIO */
extern const char *fsi_from;         /* during "rename" */
void fsi_reset(void);                 /* at the start of an execution */
int fsi_open_fds(void);             /* tracked descriptors that are open */
#endif
