'use strict';
// What idl.ts uses of codama: the node constructors, and the root back.
const camel = s => s.charAt(0).toLowerCase() + s.slice(1);
const node = kind => f => (...a) => {
    const o = f(...a) ?? {};
    return Object.fromEntries(Object.entries({ kind, ...o, ...(o.name === undefined ? {} : { name: camel(o.name) }) }).filter(([, v]) => v !== undefined));
};
const whole = kind => node(kind)(i => i ?? {});
const publicKeyTypeNode = whole('publicKeyTypeNode');
const numberTypeNode = node('numberTypeNode')((format, endian = 'le') => ({ format, endian }));
const names = {
    rootNode: node('rootNode')(program => ({ program, additionalPrograms: [] })),
    programNode: whole('programNode'),
    accountNode: whole('accountNode'),
    structTypeNode: node('structTypeNode')(fields => ({ fields })),
    structFieldTypeNode: whole('structFieldTypeNode'),
    publicKeyTypeNode,
    numberTypeNode,
    booleanTypeNode: node('booleanTypeNode')(size => ({ size: size ?? numberTypeNode('u8') })),
    booleanValueNode: node('booleanValueNode')(boolean => ({ boolean })),
    numberValueNode: node('numberValueNode')(number => ({ number })),
    publicKeyValueNode: node('publicKeyValueNode')(publicKey => ({ publicKey })),
    identityValueNode: whole('identityValueNode'),
    argumentValueNode: node('argumentValueNode')(name => ({ name })),
    pdaLinkNode: node('pdaLinkNode')(name => ({ name })),
    pdaNode: whole('pdaNode'),
    errorNode: whole('errorNode'),
    instructionNode: node('instructionNode')(i => ({ optionalAccountStrategy: 'programId', ...i })),
    instructionAccountNode: node('instructionAccountNode')(i => ({ isOptional: false, ...i })),
    instructionArgumentNode: whole('instructionArgumentNode'),
    instructionRemainingAccountsNode: node('instructionRemainingAccountsNode')((value, o = {}) => ({ value, ...o })),
    fieldDiscriminatorNode: node('fieldDiscriminatorNode')((name, offset = 0) => ({ name, offset })),
    constantPdaSeedNodeFromString: node('constantPdaSeedNode')((encoding, string) => ({ type: { kind: 'stringTypeNode', encoding }, value: { kind: 'stringValueNode', string } })),
    variablePdaSeedNode: node('variablePdaSeedNode')((name, type) => ({ name, type })),
    createFromRoot: root => ({ getRoot: () => root, getJson: () => JSON.stringify(root) }),
};
module.exports = require('./wide.cjs')('codama', names);
