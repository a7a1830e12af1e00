#include "score/json/json_parser.h"
