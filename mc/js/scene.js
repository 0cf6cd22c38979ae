process.stdout.write(require('./scenes.js').S[process.argv[2]]);
