#ifndef VSHIM_SYNCQ_H
#define VSHIM_SYNCQ_H
#endif
