'use strict';
const b = require('./base.cjs');
// error codes are their own names, whichever are asked for
module.exports = require('./wide.cjs')('@solana/kit', b, k => b.ERRORS[k]);
