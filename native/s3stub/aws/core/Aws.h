#include "aws_stub.h"
