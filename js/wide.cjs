'use strict';
// Module exports whose unknown names say so when they are used, so that a client which uses
// more of a package than the stand-in has is told apart from a client that is wrong.
const SKIP = new Set(['then', '__esModule', 'default', 'toJSON', 'constructor']);
module.exports = (what, names, also = () => undefined) => {
    const lacks = k => {
        throw new Error(`stand-in: ${what} has no ${k}`);
    };
    const proto = new Proxy(
        {},
        {
            get: (_, k) => {
                if (typeof k !== 'string' || SKIP.has(k)) return undefined;
                const v = also(k);
                if (v !== undefined) return v;
                return /^[A-Z0-9_]+$/.test(k) ? lacks(k) : () => lacks(k);
            },
        },
    );
    return Object.setPrototypeOf({ ...names }, proto);
};
