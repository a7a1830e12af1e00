#include "score/utils/meyer_singleton.h"
