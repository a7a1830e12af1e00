#ifndef VSHIM_BITMASK_H
#define VSHIM_BITMASK_H
#endif
