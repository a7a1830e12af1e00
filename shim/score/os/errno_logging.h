#include "score/os/errno.h"
