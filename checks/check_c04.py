"""C04: the user is told about every new device key, once"""
import keydir_common
def run(c): keydir_common.run(c)
