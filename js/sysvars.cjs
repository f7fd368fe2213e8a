module.exports = require('./wide.cjs')('@solana/sysvars', { SYSVAR_RENT_ADDRESS: 'SysvarRent111111111111111111111111111111111', SYSVAR_CLOCK_ADDRESS: 'SysvarC1ock11111111111111111111111111111111' });
