// A value that contains "&lt;" is shown as it is.
const page = require("./page.js");
(async () => {
  const doc = '{\n  "sign" <1700000000000000001>: "a &lt; b &amp; c <d>"\n}';
  const p = await page.open((path, car, patch) => path === "/update" && !patch ? doc : "[]");
  const got = p.boxes()[0];
  console.log(got);
  process.exit(got.replace(/\s/g, "") === doc.replace(/\s/g, "") ? 0 : 1);
})();
