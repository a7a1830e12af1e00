#ifndef VSHIM_WARNINGS_H
#define VSHIM_WARNINGS_H
#define DISABLE_WARNING_PUSH
#define DISABLE_WARNING_POP
#define DISABLE_WARNING_MAYBE_UNINITIALIZED
#define DISABLE_WARNING_SELF_ASSIGN_OVERLOADED
#define DISABLE_WARNING_UNUSED_VALUE
#endif
