#include "stack.h"
size_t cut_stack_size(void) { return sizeof(struct stack); }
