// Stand-in for TensorFlow's header of this name (see tfl_ops.h).
#ifndef STANDIN_TF_OPS_H_
#define STANDIN_TF_OPS_H_
#include "standin/common.h"

#include "standin/tf_dialect.h.inc"
#define GET_OP_CLASSES
#include "standin/tf.h.inc"
#endif
