#include "score/mw/log/logging.h"
