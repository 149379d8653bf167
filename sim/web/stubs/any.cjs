module.exports = require("./permissive.js").moduleWith({});
