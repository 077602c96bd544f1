/* The pseudo terminal helper against a kernel model: every result a system
 * call can have is a symbolic choice. */
#define VPSYS_IMPL
#include "vpsys.h"
#include "vpalloc.h"
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
#include "vp.h"
#include "shl-pty.h"

#ifndef STEPS
#define STEPS 2
#endif
#ifndef WMAX
#define WMAX 2
#endif
#define NFD 10
#define QMAX (STEPS * WMAX + 1)
#define IMAX (STEPS * 2 * 2 + 4)

enum kind { NONE, STD, MASTER, SLAVE, PIPE_R, PIPE_W, EPOLL, OTHER };
static unsigned char fds[NFD];
static bool child;		/* which side of the fork this is */
static bool fail_any;		/* set-up calls may fail */
static bool failed;		/* and one did */
static char pipe_byte;
static int pipe_state;		/* 1: a byte, 0: end of file */

static int fd_new(enum kind k)
{
	int i;

	for (i = 3; i < NFD; ++i)
		if (!fds[i]) {
			fds[i] = k;
			return i;
		}
	vp_bound(false, "descriptors");
	return -1;
}

static bool is(int fd, enum kind k)
{
	return fd >= 0 && fd < NFD && fds[fd] == k;
}

static unsigned int count(enum kind k)
{
	unsigned int i, n = 0;

	for (i = 0; i < NFD; ++i)
		n += fds[i] == k;
	return n;
}

/* a set-up call: works, or fails with some error */
static bool fails(void)
{
	if (fail_any && !failed && vp_bool()) {
		failed = true;
		errno = vp_bool() ? ENOMEM : EIO;
		return true;
	}
	errno = ENXIO;		/* a call that succeeds may leave anything there */
	return false;
}

static const char *slave_name = "/dev/pts/7";
static unsigned short set_col, set_row;
static bool winsize_set, session, ctty, utf8, bs;

int vp_close(int fd)
{
	vp_assert(fd >= 0 && fd < NFD && fds[fd] != NONE, "only open descriptors are closed");
	fds[fd] = NONE;
	return 0;
}

int vp_posix_openpt(int flags)
{
	vp_assert((flags & (O_RDWR | O_NOCTTY | O_CLOEXEC | O_NONBLOCK)) == (O_RDWR | O_NOCTTY | O_CLOEXEC | O_NONBLOCK),
		  "the master is non-blocking, not inherited and no controlling terminal");
	return fails() ? -1 : fd_new(MASTER);
}

int vp_pipe2(int *f, int flags)
{
	vp_assert(flags & O_CLOEXEC, "the pipe is not inherited");
	if (fails())
		return -1;
	f[0] = fd_new(PIPE_R);
	f[1] = fd_new(PIPE_W);
	return 0;
}

pid_t vp_fork(void)
{
	if (fails())
		return -1;
	return child ? 0 : 4711;
}

pid_t vp_setsid(void)
{
	if (fails())
		return -1;
	session = true;
	return 4711;
}

int vp_grantpt(int fd)
{
	vp_assert(is(fd, MASTER), "grantpt on the master");
	return fails() ? -1 : 0;
}

int vp_unlockpt(int fd)
{
	vp_assert(is(fd, MASTER), "unlockpt on the master");
	return fails() ? -1 : 0;
}

char *vp_ptsname(int fd)
{
	vp_assert(is(fd, MASTER), "ptsname of the master");
	return fails() ? NULL : (char *)slave_name;
}

int vp_ptsname_r(int fd, char *b, size_t n)
{
	vp_assert(is(fd, MASTER), "ptsname of the master");
	if (fails())
		return errno;
	if (n < strlen(slave_name) + 1)
		return ERANGE;
	strcpy(b, slave_name);
	return 0;
}

int vp_open(const char *path, int flags, ...)
{
	vp_assert(!strcmp(path, slave_name) && (flags & O_RDWR), "the slave is opened");
	return fails() ? -1 : fd_new(SLAVE);
}

int vp_tcgetattr(int fd, struct termios *t)
{
	unsigned int i;

	vp_assert(is(fd, SLAVE), "attributes of the slave");
	if (fails())
		return -1;
	for (i = 0; i < sizeof(*t); ++i)
		((char *)t)[i] = 0;
	return 0;
}

int vp_tcsetattr(int fd, int how, const struct termios *t)
{
	vp_assert(is(fd, SLAVE), "attributes of the slave");
	if (fails())
		return -1;
	utf8 = t->c_iflag & IUTF8;
	bs = t->c_cc[VERASE] == 010;
	return 0;
}

int vp_sigprocmask(int how, const sigset_t *s, sigset_t *o)
{
	return fails() ? -1 : 0;
}

void (*vp_signal(int n, void (*h)(int)))(int)
{
	return SIG_DFL;
}

int vp_sigaction(int n, const struct sigaction *a, struct sigaction *o)
{
	return 0;
}

int vp_dup2(int a, int b)
{
	vp_assert(a >= 0 && a < NFD && fds[a] != NONE, "dup2 of an open descriptor");
	if (fails())
		return -1;
	fds[b] = fds[a];
	return b;
}

int vp_ioctl(int fd, unsigned long req, unsigned long arg)
{
	if (req == TIOCSCTTY) {
		vp_assert(is(fd, SLAVE), "the slave becomes the controlling terminal");
		if (fails())
			return -1;
		ctty = true;
	} else if (req == TIOCSWINSZ) {
		const struct winsize *w = (const void *)arg;

		vp_assert(is(fd, SLAVE) || is(fd, MASTER), "size of a terminal");
		if (fails())
			return -1;
		winsize_set = true;
		set_col = w->ws_col;
		set_row = w->ws_row;
		vp_assert(!w->ws_xpixel && !w->ws_ypixel, "no pixel size");
	} else if (req == TIOCSIG) {
		vp_assert(is(fd, MASTER), "signal through the master");
		if (fails())
			return -1;
		set_col = arg;
	} else {
		vp_assert(false, "unknown request");
	}
	return 0;
}

/* the data path */
static uint8_t queued[QMAX], input[IMAX], delivered[IMAX];
static unsigned int nq, nw, nin, ndel;
static bool rd_again, wr_again, rd_other, wr_other;
static bool io, ran;

ssize_t vp_read(int fd, void *buf, size_t n)
{
	unsigned int k;
	uint8_t *b = buf;

	if (is(fd, PIPE_R)) {
		vp_assert(n == 1, "one byte tells that the child is ready");
		if (fail_any && vp_pick(0, 3) == 0 && !failed) {
			failed = true;
			if (vp_bool()) {
				errno = EIO;
				return -1;
			}
			return 0;
		}
		if (!pipe_state)
			return 0;
		*b = pipe_byte;
		return 1;
	}
	vp_assert(io && is(fd, MASTER), "reads come from the master");
	ran = true;
	rd_again = false;
#ifdef LARGE
	k = 0;
#elif defined FULL
	k = vp_pick(0, 3) ? 6 : 0;
#else
	k = vp_pick(0, 5);
#endif
	switch (k) {
	case 0:
		rd_again = true;
		errno = EAGAIN;
		return -1;
	case 1:
		errno = EINTR;
		return -1;
	case 2:
		rd_other = true;
		errno = EIO;
		return -1;
	case 3:
		rd_other = true;
		return 0;
	case 4:
	case 5:
		for (k -= 3; k && n; --k, --n)
			input[nin++] = *b++ = vp_u8();
		return b - (uint8_t *)buf;
	default:
		/* as much as there is room for */
		for (k = 0; k < n; ++k)
			b[k] = 'f';
		input[nin++] = 'f';
		return n;
	}
}

ssize_t vp_writev(int fd, const struct iovec *v, int n)
{
	unsigned int k, total = 0;
	int i;

	vp_assert(io && is(fd, MASTER) && n >= 1 && n <= 2, "data is written to the master");
	for (i = 0; i < n; ++i)
		total += v[i].iov_len;
	vp_assert(total >= 1 && total <= nq - nw, "what is offered was queued and not yet written");
	wr_again = false;
#ifdef LARGE
	{
		/* a full or a short write, at and around the sizes of the buffers */
		unsigned int m[] = { 1, v[0].iov_len, total / 2 + 1, total - 1, total };

		k = vp_pick(0, 5);
		k = k ? 3 + m[k - 1] : 0;
		if (k == 3)
			k = 4;
	}
#else
	k = vp_pick(0, 3 + total);
#endif
	if (k == 0) {
		wr_again = true;
		errno = EAGAIN;
		return -1;
	} else if (k == 1) {
		errno = EINTR;
		return -1;
	} else if (k == 2) {
		wr_other = true;
		errno = EIO;
		return -1;
	} else if (k == 3) {
		wr_other = true;
		return 0;
	}
	total = k -= 3;
	for (i = 0; i < n; ++i) {
		size_t j;

		for (j = 0; j < v[i].iov_len && k; ++j, --k) {
			vp_assert(nw < nq && ((uint8_t *)v[i].iov_base)[j] == queued[nw], "bytes are written once and in order");
			++nw;
		}
	}
	return total;
}

ssize_t vp_write(int fd, const void *buf, size_t n)
{
	struct iovec v = { .iov_base = (void *)buf, .iov_len = n };

	if (is(fd, MASTER))
		return vp_writev(fd, &v, 1);
	vp_assert(is(fd, PIPE_W) && n == 1, "the child tells that it is ready");
	pipe_state = 1;
	pipe_byte = *(const char *)buf;
	return 1;
}

ssize_t vp_readv(int fd, const struct iovec *v, int n)
{
	return vp_read(fd, v[0].iov_base, v[0].iov_len);
}

static struct shl_pty *pty;
static int token;

static void on_input(struct shl_pty *p, void *data, char *u8, size_t len)
{
	size_t i;

	vp_assert(p == pty && data == &token, "the callback gets its data");
	vp_assert(len > 0 && u8[len] == 0, "input is terminated");
	if (len > 2) {
		for (i = 0; i < len; ++i)
			vp_assert(u8[i] == 'f', "all the input is delivered");
		delivered[ndel++] = 'f';
	} else {
		for (i = 0; i < len; ++i)
			delivered[ndel++] = u8[i];
	}
}

/* the epoll set: at most this terminal */
static bool in_set, rearmed;
static int epfd;
static void *ep_ptr;
#define EVENTS (EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET)

int vp_epoll_create1(int flags)
{
	vp_assert(flags & EPOLL_CLOEXEC, "not inherited");
	return fails() ? -1 : (epfd = fd_new(EPOLL));
}

int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	vp_assert(is(ep, EPOLL), "the set is an epoll set");
	if (!is(fd, MASTER)) {
		errno = EBADF;
		return -1;
	}
	if (op == EPOLL_CTL_ADD ? in_set : !in_set) {
		errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT;
		return -1;
	}
	if (fails())
		return -1;
	if (op == EPOLL_CTL_DEL) {
		in_set = false;
		return 0;
	}
	vp_assert(op == EPOLL_CTL_ADD || op == EPOLL_CTL_MOD, "operation");
	vp_assert((ev->events & EVENTS) == EVENTS, "edge-triggered for both directions and errors");
	in_set = true;
	rearmed = true;
	ep_ptr = ev->data.ptr;
	return 0;
}

static int ep_state;
int vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t)
{
	vp_assert(is(ep, EPOLL) && n == 1 && t == 17, "waits as asked to");
	if (ep_state == 0)
		return 0;
	if (ep_state < 0) {
		errno = -ep_state;
		return -1;
	}
	ev->events = EPOLLIN;
	ev->data.ptr = ep_ptr;
	return 1;
}

static unsigned short col, row;

void vp_exit(int code)
{
	vp_assert(child, "only a child exits");
	vp_assert(code != 0 && failed, "a child gives up only when something failed");
	vp_assert(!pipe_state, "without telling the parent that it is ready");
	vp_done();
	for (;;)
		;
}

static void open_failed(pid_t r)
{
	vp_assert(r < 0, "a failure is reported");
	vp_assert(count(MASTER) == 0 && count(PIPE_R) == 0 && count(PIPE_W) == 0, "no descriptor is left open");
	vp_assert(vp_live == 0, "no memory is left allocated");
	vp_assert(pty == NULL, "no terminal is returned");
}

static void check_io(void)
{
	unsigned int i;

	vp_assert(ndel == nin, "all input is delivered");
	for (i = 0; i < nin; ++i)
		vp_assert(delivered[i] == input[i], "input is delivered once and in order");
}

int main(void)
{
	unsigned int s, i, k;
	pid_t r;

	fds[0] = fds[1] = fds[2] = STD;
	vp_fail_budget = 0;
	col = vp_u32();
	row = vp_u32();
#if PART == 1
	/* opening, either side, any one failure */
	fail_any = true;
	child = vp_bool();
	vp_fail_budget = 1;
	if (!child) {
		pipe_state = vp_bool();
		pipe_byte = 1;
	}
	vp_assert(shl_pty_open(NULL, on_input, &token, col, row) == -EINVAL, "nowhere to put the terminal");
	r = shl_pty_open(&pty, on_input, &token, col, row);
	if (vp_failed || (failed && !(child && r == 0)) || (!child && !pipe_state)) {
		open_failed(r);
		vp_done();
		return 0;
	}
	if (r == 0) {
		vp_assert(child, "the child learns that it is one");
		vp_assert(pty == NULL && vp_live == 0, "the child keeps nothing");
		vp_assert(pipe_state == 1 && pipe_byte == 1, "the child told that it is ready");
		vp_assert(is(0, SLAVE) && is(1, SLAVE) && is(2, SLAVE), "the slave is standard input, output and error");
		vp_assert(count(SLAVE) == 3 && count(MASTER) == 0 && count(PIPE_R) == 0 && count(PIPE_W) == 0,
			  "the child has no other descriptor of the terminal");
		vp_assert(session && ctty, "own session with the slave as controlling terminal");
		vp_assert(winsize_set && set_col == col && set_row == row, "the size is set");
		vp_assert(utf8 && bs, "UTF-8 input and backspace as erase character");
		vp_done();
		return 0;
	}
	vp_assert(r == 4711 && pty && shl_pty_is_open(pty) && shl_pty_get_child(pty) == r, "the terminal is open");
	vp_assert(count(MASTER) == 1 && is(shl_pty_get_fd(pty), MASTER), "the parent keeps the master");
	vp_assert(count(PIPE_R) == 0 && count(PIPE_W) == 0, "and closes the pipe");
	shl_pty_ref(pty);
	shl_pty_unref(pty);
	if (vp_bool()) {
		shl_pty_close(pty);
		vp_assert(count(MASTER) == 0 && !shl_pty_is_open(pty) && shl_pty_get_fd(pty) == -EPIPE, "closed");
		vp_assert(shl_pty_dispatch(pty) == -ENODEV && shl_pty_write(pty, "x", 1) == -ENODEV &&
			  shl_pty_resize(pty, 1, 1) == -ENODEV && shl_pty_signal(pty, 1) == -ENODEV, "nothing works when closed");
		shl_pty_close(pty);
	}
	shl_pty_unref(pty);
	vp_assert(count(MASTER) == 0 && vp_live == 0, "everything is released with the last reference");
	shl_pty_ref(NULL);
	shl_pty_unref(NULL);
	shl_pty_close(NULL);
	vp_assert(!shl_pty_is_open(NULL) && shl_pty_get_fd(NULL) == -EINVAL && shl_pty_get_child(NULL) == -EINVAL, "no terminal");
#elif PART == 2
	/* data in both directions */
	pipe_state = 1;
	pipe_byte = 1;
	r = shl_pty_open(&pty, on_input, &token, col, row);
	vp_assert(r > 0, "the terminal opens");
	io = true;
#ifdef BRIDGE
	int br = shl_pty_bridge_new();

	vp_assert(br == epfd, "the bridge");
	vp_assert(shl_pty_bridge_add(br, pty) == 0 && in_set && ep_ptr == pty, "the terminal is in the set");
#endif
	for (s = 0; s < STEPS; ++s) {
#ifdef LARGE
		static const unsigned int lens[] = { 1, 4095, 4097, 9000 };
		static char b[9000];

		k = lens[vp_pick(0, 3)];
		for (i = 0; i < k; ++i)
			b[i] = queued[nq + i] = (nq + i) * 7 + (nq + i) / 251;
		vp_assert(shl_pty_write(pty, b, k) == 0, "writing queues the bytes");
		nq += k;
#else
		k = vp_pick(0, WMAX + 1);
		if (k <= WMAX && k > 0) {
			char b[WMAX];

			for (i = 0; i < k; ++i) {
				b[i] = (char)vp_u8();
				queued[nq + i] = (uint8_t)b[i];
			}
			vp_assert(shl_pty_write(pty, b, k) == 0, "writing queues the bytes");
			nq += k;
		}
#endif
		wr_again = wr_other = rd_again = rd_other = rearmed = ran = false;
#ifdef BRIDGE
		ep_state = vp_bool() ? 1 : -(int)EINTR;
		if (vp_bool()) {
			r = shl_pty_bridge_dispatch_pty(br, pty);
			vp_assert(ran, "the terminal is served");
		} else {
			r = shl_pty_bridge_dispatch(br, 17);
			vp_assert(ran == (ep_state == 1), "the terminal is served when there is an event");
		}
		vp_assert(r == 0, "the dispatcher succeeds");
		if (ran && !rd_again && !rd_other)
			vp_assert(rearmed, "with input left the terminal is watched again");
		if (ran && nq > nw && !wr_again && !wr_other && !rd_other)
			vp_assert(rearmed, "with output left that would fit the terminal is watched again");
		vp_assert(in_set && ep_ptr == pty, "the terminal stays in the set");
#else
		r = shl_pty_dispatch(pty);
		if (r == 0) {
			vp_assert(rd_again, "done only when there is no more input");
			vp_assert(nq == nw || wr_again, "and all output is written or there is no room for it");
		} else {
			vp_assert(r == -EAGAIN || rd_other || wr_other, "errors are those of the terminal");
			vp_assert(r == -EAGAIN || r == -EIO || r == -EPIPE, "errors are those of the terminal");
		}
#endif
		check_io();
	}
#ifdef BRIDGE
	shl_pty_bridge_remove(br, pty);
	vp_assert(!in_set, "the terminal is taken out");
	shl_pty_bridge_free(br);
	shl_pty_bridge_free(-1);
	vp_assert(count(EPOLL) == 0, "the bridge is closed");
	vp_assert(shl_pty_bridge_dispatch(-1, 17) == -EINVAL && shl_pty_bridge_dispatch_pty(-1, pty) == -EINVAL &&
		  shl_pty_bridge_add(-1, pty) == -EINVAL, "no bridge");
#endif
	shl_pty_unref(pty);
	vp_assert(count(MASTER) == 0 && vp_live == 0, "everything is released with the last reference");
#else
	/* size, signals and the bridge with failing calls */
	pipe_state = 1;
	pipe_byte = 1;
	r = shl_pty_open(&pty, on_input, &token, col, row);
	vp_assert(r > 0, "the terminal opens");
	fail_any = true;
	switch (vp_pick(0, 2)) {
	case 0:
		col = vp_u32();
		row = vp_u32();
		r = shl_pty_resize(pty, col, row);
		vp_assert(r == (failed ? -errno : 0), "the result");
		vp_assert(failed || (winsize_set && set_col == col && set_row == row), "the size is set");
		break;
	case 1:
		k = vp_u8();
		r = shl_pty_signal(pty, k);
		vp_assert(r == (failed ? -errno : 0), "the result");
		vp_assert(failed || set_col == k, "the signal is sent");
		break;
	case 2:
		r = shl_pty_bridge_new();
		vp_assert(failed ? r == -errno : is(r, EPOLL), "the bridge");
		if (r < 0)
			break;
		k = r;
		r = shl_pty_bridge_add(k, pty);
		vp_assert(failed ? r == -errno : r == 0 && in_set, "adding");
		if (!failed) {
			r = shl_pty_bridge_add(k, pty);
			vp_assert(r == -EEXIST, "adding twice");
			shl_pty_bridge_remove(k, pty);
		}
		failed = true;
		ep_state = vp_bool() ? 0 : vp_bool() ? -EIO : vp_bool() ? -EAGAIN : -EINTR;
		r = shl_pty_bridge_dispatch(k, 17);
		vp_assert(r == (ep_state == -EIO ? -EIO : 0), "errors of the set are reported, interruptions are not");
		shl_pty_close(pty);
		vp_assert(shl_pty_bridge_add(k, pty) == -ENODEV, "a closed terminal cannot be added");
		shl_pty_bridge_remove(k, pty);
		shl_pty_bridge_free(k);
		vp_assert(count(EPOLL) == 0, "the bridge is closed");
		break;
	}
	shl_pty_unref(pty);
	vp_assert(count(MASTER) == 0 && vp_live == 0, "everything is released with the last reference");
#endif
	(void)s; (void)i; (void)k;
	vp_done();
	return 0;
}
