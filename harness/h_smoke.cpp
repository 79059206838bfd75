extern "C" {
#include "verify.h"
#include "plugin.h"
}
int main(){ verify_ctx_t c={0}; c4_verify_from_bytes(&c, NULL_BYTES, (char*)"eth_chainId", json_parse("[]"), 1); printf("%d %s\n", c.success, c.state.error?c.state.error:""); return 0;}
