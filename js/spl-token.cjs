module.exports = require('./wide.cjs')('@solana-program/token', require('./token.cjs').token);
