module.exports = require("./permissive.js").moduleWith(require("./state.js"));
