#include "score/filesystem/filesystem.h"
