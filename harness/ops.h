/* opcodes carried by test requests: payload = op, arg, tag lo, tag hi, pattern... */
enum { OP_ECHO = 1, OP_NOP, OP_DEFER, OP_EVENT_SELF, OP_BCAST, OP_SHUTDOWN, OP_GATE, OP_TWICE_BCAST, OP_DEFER_SELF, OP_GATE_ECHO, OP_EVENT_TO, OP_BIGECHO, OP_REGISTER, OP_UNREGISTER };
#define OP_HELD 0x40   /* held up by the test before doing it */
