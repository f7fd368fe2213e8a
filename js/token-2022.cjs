module.exports = require('./wide.cjs')('@solana-program/token-2022', require('./token.cjs').token2022);
