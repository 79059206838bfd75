#ifndef VERIFIERS_H
#define VERIFIERS_H
const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type);
bool             c4_eth_verify(verify_ctx_t* ctx);
method_type_t    c4_eth_get_method_type(chain_id_t chain_id, char* method);
#ifdef CHAIN_OP
const ssz_def_t* c4_op_get_request_type(chain_type_t chain_type);
bool             c4_op_verify(verify_ctx_t* ctx);
method_type_t    c4_op_get_method_type(chain_id_t chain_id, char* method);
#endif
static const ssz_def_t* request_container(chain_type_t chain_type) {
  const ssz_def_t* container = NULL;
  if (!container) container = c4_eth_get_request_type(chain_type);
#ifdef CHAIN_OP
  if (!container) container = c4_op_get_request_type(chain_type);
#endif
  return container;
}
static bool handle_verification(verify_ctx_t* ctx) {
  if (c4_eth_verify(ctx)) return true;
#ifdef CHAIN_OP
  if (c4_op_verify(ctx)) return true;
#endif
  return false;
}
method_type_t c4_get_method_type(chain_id_t chain_id, char* method) {
  method_type_t type = METHOD_UNDEFINED;
  if (!type) type = c4_eth_get_method_type(chain_id, method);
#ifdef CHAIN_OP
  if (!type) type = c4_op_get_method_type(chain_id, method);
#endif
  return type;
}
#endif
