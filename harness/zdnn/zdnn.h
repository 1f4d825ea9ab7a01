// The part of the public interface of IBM's zDNN library (which is not
// installed here) that /repo's NNPA support code compiles against.
#ifndef VERIF_ZDNN_H
#define VERIF_ZDNN_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef enum zdnn_status_e {
  ZDNN_OK = 0,
  ZDNN_ELEMENT_RANGE_VIOLATION = 0x20001,
  ZDNN_INVALID_SHAPE = 0x40001, ZDNN_INVALID_LAYOUT, ZDNN_INVALID_TYPE, ZDNN_INVALID_FORMAT,
  ZDNN_INVALID_DIRECTION, ZDNN_INVALID_CONCAT_INFO, ZDNN_INVALID_STRIDE_PADDING, ZDNN_INVALID_STRIDES,
  ZDNN_MISALIGNED_PARMBLOCK, ZDNN_INVALID_CLIPPING_VALUE, ZDNN_INVALID_ADJUSTMENT_FACTOR, ZDNN_INVALID_EPSILON,
  ZDNN_INVALID_TRANSFORM_TYPE, ZDNN_INVALID_BETA, ZDNN_INVALID_GAMMA, ZDNN_INVALID_BESSEL_CORRECTION,
  ZDNN_INVALID_SCALE, ZDNN_INVALID_OFFSET,
  ZDNN_ALLOCATION_FAILURE = 0x100001, ZDNN_INVALID_BUFFER, ZDNN_CONVERT_FAILURE, ZDNN_INVALID_STATE,
  ZDNN_UNSUPPORTED_AIU_EXCEPTION,
  ZDNN_UNSUPPORTED_PARMBLOCK = 0xC0001, ZDNN_UNAVAILABLE_FUNCTION, ZDNN_EXCEEDS_MDIS = 0xC0005, ZDNN_EXCEEDS_MTS
} zdnn_status;
typedef enum zdnn_data_types { NNPA_DATATYPE_1 = 0, ZDNN_DLFLOAT16 = 0, ZDNN_BINARY_FP32 = 6, ZDNN_BINARY_INT8 = 8,
  ZDNN_BINARY_INT32 = 10, INT8 = 251, INT32 = 252, BFLOAT = 253, FP16 = 254, FP32 = 255 } zdnn_data_types;
typedef enum zdnn_data_layouts { ZDNN_1D, ZDNN_2D, ZDNN_2DS, ZDNN_3D, ZDNN_3DS, ZDNN_ZRH, ZDNN_4D, ZDNN_4DS,
  ZDNN_NHWC, ZDNN_NCHW, ZDNN_FICO, ZDNN_HWCK, ZDNN_BIDIR_ZRH, ZDNN_BIDIR_FICO } zdnn_data_layouts;
typedef enum zdnn_data_formats { ZDNN_FORMAT_4DFEATURE = 0, ZDNN_FORMAT_4DKERNEL = 1, ZDNN_FORMAT_4DWEIGHTS = 2,
  ZDNN_FORMAT_4DGENERIC = 31 } zdnn_data_formats;
typedef enum zdnn_quantized_transform_types { QUANTIZED_DLFLOAT16 = 0, QUANTIZED_INT8 = 1, QUANTIZED_WEIGHTS_INT8 = 2 } zdnn_quantized_transform_types;
typedef enum nnpa_function_code { NNPA_LSTMACT = 96, NNPA_GRUACT = 97 } nnpa_function_code;
typedef uint32_t zdnn_concat_info;
#define RNN_TYPE_LSTM (0 << 24)
#define RNN_TYPE_GRU (1 << 24)
#define PREV_LAYER_UNI (0 << 16)
#define PREV_LAYER_NONE PREV_LAYER_UNI
#define PREV_LAYER_BIDIR (1 << 16)
#define USAGE_WEIGHTS (0 << 8)
#define USAGE_HIDDEN_WEIGHTS (1 << 8)
#define USAGE_BIASES (2 << 8)
#define USAGE_HIDDEN_BIASES (3 << 8)
#define CONCAT_RNN_TYPE(info) (info & 0xFF000000)
#define CONCAT_PREV_LAYER(info) (info & 0x00FF0000)
#define CONCAT_USAGE(info) (info & 0x0000FF00)
typedef struct zdnn_tensor_desc {
  zdnn_data_layouts layout;
  zdnn_data_formats format;
  zdnn_data_types type;
  uint32_t dim4, dim3, dim2, dim1;
} zdnn_tensor_desc;
typedef struct zdnn_ztensor {
  zdnn_tensor_desc *pre_transformed_desc, *transformed_desc;
  uint64_t buffer_size;
  void *buffer;
  bool is_transformed;
  char reserved[3];
  float rec_scale, offset;
  char reserved2[20];
} zdnn_ztensor;
typedef enum zdnn_softmax_act { SOFTMAX_ACT_NONE = 0, SOFTMAX_ACT_LOG = 1 } zdnn_softmax_act;
typedef enum zdnn_matmul_ops { MATMUL_OP_ADDITION = 0, MATMUL_OP_GREATER, MATMUL_OP_GREATER_EQUAL, MATMUL_OP_EQUAL,
  MATMUL_OP_NOT_EQUAL, MATMUL_OP_LESSER_EQUAL, MATMUL_OP_LESSER } zdnn_matmul_ops;
typedef enum zdnn_matmul_bcast_ops { MATMUL_BCAST_OP_ADDITION = 0, MATMUL_BCAST_OP_GREATER, MATMUL_BCAST_OP_GREATER_EQUAL,
  MATMUL_BCAST_OP_EQUAL, MATMUL_BCAST_OP_NOT_EQUAL, MATMUL_BCAST_OP_LESSER_EQUAL, MATMUL_BCAST_OP_LESSER } zdnn_matmul_bcast_ops;
typedef enum zdnn_reduce_ops { REDUCE_OP_MINIMUM = 0, REDUCE_OP_MINIMUM_IDX, REDUCE_OP_MAXIMUM, REDUCE_OP_MAXIMUM_IDX } zdnn_reduce_ops;
typedef enum nnpa_parmblk_format { NNPA_PARMBLKFORMAT_0 = 0, NNPA_PARMBLKFORMAT_1 = 1 } nnpa_parmblk_format;
#ifdef VERIF_ZDNN_FUNCTIONS
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef const zdnn_ztensor *ZIN;
void zdnn_init(void);
bool zdnn_is_nnpa_installed(void);
bool zdnn_is_nnpa_parmblk_fmt_installed(int count, ...);
uint32_t zdnn_get_nnpa_max_dim_idx_size(void);
uint32_t zdnn_get_max_for_dim(uint8_t dim);
uint64_t zdnn_get_nnpa_max_tensor_size(void);
const char *zdnn_get_status_message(zdnn_status);
zdnn_status zdnn_generate_transformed_desc(const zdnn_tensor_desc *, zdnn_tensor_desc *);
zdnn_status zdnn_generate_quantized_transformed_desc(const zdnn_tensor_desc *, zdnn_quantized_transform_types, zdnn_tensor_desc *);
uint64_t zdnn_getsize_ztensor(const zdnn_tensor_desc *);
zdnn_status zdnn_free_ztensor_buffer(const zdnn_ztensor *);
zdnn_status zdnn_add(ZIN, ZIN, zdnn_ztensor *); zdnn_status zdnn_sub(ZIN, ZIN, zdnn_ztensor *);
zdnn_status zdnn_mul(ZIN, ZIN, zdnn_ztensor *); zdnn_status zdnn_div(ZIN, ZIN, zdnn_ztensor *);
zdnn_status zdnn_max(ZIN, ZIN, zdnn_ztensor *); zdnn_status zdnn_min(ZIN, ZIN, zdnn_ztensor *);
zdnn_status zdnn_exp(ZIN, zdnn_ztensor *); zdnn_status zdnn_log(ZIN, zdnn_ztensor *);
zdnn_status zdnn_gelu(ZIN, zdnn_ztensor *); zdnn_status zdnn_sqrt(ZIN, zdnn_ztensor *);
zdnn_status zdnn_tanh(ZIN, zdnn_ztensor *); zdnn_status zdnn_sigmoid(ZIN, zdnn_ztensor *);
zdnn_status zdnn_relu(ZIN, const void *, zdnn_ztensor *); zdnn_status zdnn_invsqrt(ZIN, float, zdnn_ztensor *);
zdnn_status zdnn_leaky_relu(ZIN, const void *, float, zdnn_ztensor *);
zdnn_status zdnn_reduce(ZIN, void *, zdnn_reduce_ops, zdnn_ztensor *);
zdnn_status zdnn_softmax(ZIN, void *, zdnn_softmax_act, zdnn_ztensor *);
zdnn_status zdnn_matmul_op(ZIN, ZIN, ZIN, zdnn_matmul_ops, zdnn_ztensor *);
zdnn_status zdnn_matmul_bcast_op(ZIN, ZIN, ZIN, zdnn_matmul_bcast_ops, zdnn_ztensor *);
zdnn_status zdnn_matmul_transpose_op(ZIN, ZIN, ZIN, bool, bool, zdnn_matmul_ops, zdnn_ztensor *);
zdnn_status zdnn_quantized_matmul_op(ZIN, ZIN, ZIN, zdnn_matmul_ops, int8_t, int8_t, bool, bool, bool, void *, zdnn_ztensor *);
#ifdef __cplusplus
}
#endif
#endif
#endif
