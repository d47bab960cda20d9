/* ioctl() with the pointer all of ours take, instead of "..." */
int v_ioctl(int fd, unsigned long r, void *arg);
