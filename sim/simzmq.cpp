#include <cerrno>
#include <zmq.h>
extern "C" {
int zmq_bind(void*, const char*) { errno = ENOTSUP; return -1; }
int zmq_close(void*) { return 0; }
int zmq_connect(void*, const char*) { errno = ENOTSUP; return -1; }
int zmq_ctx_destroy(void*) { return 0; }
void* zmq_ctx_new(void) { return nullptr; }
int zmq_ctx_set(void*, int, int) { return 0; }
int zmq_disconnect(void*, const char*) { return 0; }
int zmq_errno(void) { return errno; }
int zmq_msg_close(zmq_msg_t*) { return 0; }
void* zmq_msg_data(zmq_msg_t*) { return nullptr; }
int zmq_msg_init(zmq_msg_t*) { return 0; }
int zmq_msg_recv(zmq_msg_t*, void*, int) { return -1; }
int zmq_msg_send(zmq_msg_t*, void*, int) { return -1; }
size_t zmq_msg_size(const zmq_msg_t*) { return 0; }
int zmq_poll(zmq_pollitem_t*, int, long) { return -1; }
int zmq_send(void*, const void*, size_t, int) { return -1; }
int zmq_setsockopt(void*, int, const void*, size_t) { return 0; }
void* zmq_socket(void*, int) { return nullptr; }
const char* zmq_strerror(int) { return "zmq"; }
void zmq_version(int* a, int* b, int* c) { *a = 4; *b = 3; *c = 5; }
}
