// A snapshot saved again, while another one is shown, is shown.
const page = require("./page.js");
(async () => {
  const p = await page.open((path, car, patch) => `{ "of" <1>: "${path}${car}-${patch}" }`);
  const save = async (car, patch) => {
    if (p.picked(0) !== car) await p.pick(0, car);
    if (p.picked(1) !== patch) await p.pick(1, patch);
    await p.press(); await p.press();
    console.log(p.picked(2), p.listed(2).join(), p.boxes()[3]);
    const name = `car_${car}_patch_${patch - 1} Snapshot`;
    if (p.picked(2) !== name || !p.boxes()[3].includes(`/patch${car}-${patch}`)) process.exit(1);
  };
  await save("2", "3"); await save("1", "9"); await save("2", "3");
  process.exit(0);
})();
