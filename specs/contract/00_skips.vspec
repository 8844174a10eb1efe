#skipmod tests
#skip *::Uint128::* conversion of TokenAmount to Uint128 (shim)
#skip math::types::token_amount::Uint128* shim
#skip error::StdError* conversion to StdError is only used for error values
#skip error::ContractError::From* error conversion
