//! Small dense numbers for the simulated system calls.
macro_rules! nos { ($($n:ident = $v:expr, $s:expr;)*) => { $(pub const $n: u32 = $v;)* pub const NAMES: &[&str] = &[$($s),*]; } }
nos! {
    SOCKET = 0, "socket"; SOCKETPAIR = 1, "socketpair"; BIND = 2, "bind"; CONNECT = 3, "connect"; LISTEN = 4, "listen";
    ACCEPT = 5, "accept"; SHUTDOWN = 6, "shutdown"; SETSOCKOPT = 7, "setsockopt"; GETSOCKOPT = 8, "getsockopt";
    SENDMSG = 9, "sendmsg"; RECVMSG = 10, "recvmsg"; WRITE = 11, "write"; READ = 12, "read";
    EPOLL_CREATE = 13, "epoll_create1"; EPOLL_CTL = 14, "epoll_ctl"; EPOLL_WAIT = 15, "epoll_wait"; POLL = 16, "poll";
    EVENTFD = 17, "eventfd"; PIPE = 18, "pipe"; MEMFD = 19, "memfd_create"; FTRUNCATE = 20, "ftruncate"; FSTAT = 21, "fstat";
    LSEEK = 22, "lseek"; OPEN = 23, "open"; MMAP = 24, "mmap"; MUNMAP = 25, "munmap"; CLOSE = 26, "close"; FCNTL = 27, "fcntl";
    NANOSLEEP = 28, "nanosleep"; FUTEX = 29, "futex"; PTHREAD_CREATE = 30, "pthread_create"; PTHREAD_JOIN = 31, "pthread_join";
}
