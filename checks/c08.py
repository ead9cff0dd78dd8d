"""C08: histories of meshes (OcpWalk.tla) replayed on real problems; after every step the problem must
evaluate to what the specification says for the settings now in force."""
import ocpwalk


def main(chk):
    ocpwalk.run(chk, "C08", exhaustive=[(chk.pick(3, 10), 3)], random_=(chk.pick(120, 600), chk.pick(14, 30)),
                share=chk.pick({"casadi": 10, "jax": 6}, {"casadi": 80, "jax": 40}))
