const { moduleWith, anything } = require("./permissive.js");
module.exports = moduleWith({ default: anything });
