#include "upb/msg_internal.h"
