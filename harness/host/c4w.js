// Stand-in for the WebAssembly module: a heap with accounting and a library scripted by the explorer (globalThis.__lib).
export default async function () {
  const lib = globalThis.__lib;
  return lib.module();
}
