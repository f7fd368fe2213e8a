// the description is printed, not written where its source would put it
const writeFileSync = (_, text) => process.stdout.write(text);
module.exports = { writeFileSync, promises: { writeFile: async (p, t) => writeFileSync(p, t) } };
