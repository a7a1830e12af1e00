#ifndef VSHIM_OS_SIGNAL_IMPL_H
#define VSHIM_OS_SIGNAL_IMPL_H
#include "score/os/utils/signal.h"
#endif
