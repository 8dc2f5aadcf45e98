import { main } from "./core";
import "./query";
import "./metadata";
import "./wire";
import "./builder";
import "./together";
import "./cost";

main().catch((e) => {
  process.stderr.write("ERROR: " + (e?.stack ?? e) + "\n");
  process.exit(2);
});
