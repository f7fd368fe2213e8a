module.exports = require('./wide.cjs')('@solana-program/system', require('./token.cjs').system);
