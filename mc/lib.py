"""Shared helpers of the check modules: canonical views of the library's observable state."""
import itertools
import os

from mc.engine import Violation


# numbers of things at and around which an implementation may change its ways
SIZES = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 26, 31, 32, 33, 40, 49, 50, 51, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129]
LARGE = [*SIZES, 150, 199, 200, 201, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 600]
HUGE = [*LARGE, 800, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2049]

# well-known names: nothing about them may be special unless documented
VARS = ['SRC_URI', 'DEPENDS', 'RDEPENDS', 'RRECOMMENDS', 'RPROVIDES', 'RCONFLICTS', 'RREPLACES', 'RSUGGESTS', 'PROVIDES', 'SUMMARY', 'DESCRIPTION', 'HOMEPAGE', 'BUGTRACKER', 'SECTION',
        'LICENSE', 'LIC_FILES_CHKSUM', 'LICENSE_FLAGS', 'AUTHOR', 'SRCREV', 'SRCREV_FORMAT', 'SRCPV', 'PE', 'PR', 'S', 'WORKDIR', 'UNPACKDIR', 'T', 'PF', 'PKGV', 'PKGR', 'PKGE', 'CVE_PRODUCT',
        'CVE_VERSION', 'CVE_STATUS', 'CVE_CHECK_IGNORE', 'FILESEXTRAPATHS', 'FILESPATH', 'FILES', 'CONFFILES', 'PACKAGECONFIG', 'PACKAGECONFIG_CONFARGS', 'EXTRA_OECONF', 'EXTRA_OEMAKE',
        'EXTRA_OECMAKE', 'EXTRA_OEMESON', 'PARALLEL_MAKE', 'COMPATIBLE_MACHINE', 'COMPATIBLE_HOST', 'BBCLASSEXTEND', 'INSANE_SKIP', 'SYSTEMD_SERVICE', 'SYSTEMD_PACKAGES', 'INITSCRIPT_NAME',
        'USERADD_PACKAGES', 'USERADD_PARAM', 'GROUPADD_PARAM', 'ALTERNATIVE', 'ALTERNATIVE_PRIORITY', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'TARGET_CFLAGS', 'MACHINE', 'MACHINEOVERRIDES', 'DISTRO',
        'DISTROOVERRIDES', 'OVERRIDES', 'DISTRO_FEATURES', 'MACHINE_FEATURES', 'IMAGE_FEATURES', 'IMAGE_INSTALL', 'IMAGE_FSTYPES', 'IMAGE_LINGUAS', 'INHERIT_X', 'USER_CLASSES', 'INHERIT_DISTRO',
        'BBPATH', 'BBFILES', 'BBFILE_COLLECTIONS', 'BBFILE_PRIORITY', 'LAYERSERIES_COMPAT', 'LAYERDEPENDS', 'LAYERVERSION', 'PREFERRED_PROVIDER', 'PREFERRED_VERSION', 'PREMIRRORS', 'MIRRORS',
        'BB_NUMBER_THREADS', 'BB_DANGLINGAPPENDS_WARNONLY', 'DL_DIR', 'SSTATE_DIR', 'TMPDIR', 'TOPDIR', 'LAYERDIR', 'COREBASE', 'D', 'DEFAULT_PREFERENCE', 'EXCLUDE_FROM_WORLD', 'GITHUB_BASE_URI',
        'GITDIR', 'GIT_SRC', 'INC_PR', 'INCLUDE', 'INHERITED', 'UNSET', 'EXPORT', 'EXPORTS', 'PYTHON_PN', 'PYPI_PACKAGE', 'NPM_INSTALL', 'KERNEL_MODULE_AUTOLOAD', 'KBRANCH', 'MODULE', 'PACKAGE_ARCH',
        'PACKAGES_DYNAMIC', 'PACKAGE_CLASSES', 'PACKAGESPLITFUNCS', 'PARALLEL', 'PATH', 'HOME', 'USER', 'RM_WORK_EXCLUDE', 'RUN_X', 'SOLIBS_X', 'SPDX', 'SYSROOT_DIRS', 'TOOLCHAIN', 'TUNE_FEATURES',
        'VIRTUAL', 'XORG_X', 'ZSTD', '__BBAPPEND', '__INHERIT_CACHE', '_PN', 'PNX', 'BPNX', 'PV_X', 'MY_PN', 'FILE_X', 'THISDIR_X', 'REMOVE', 'APPEND', 'PREPEND', 'CLASS', 'NONE', 'TRUE', 'SELF', 'VAR']
TASKS = ['do_fetch', 'do_unpack', 'do_patch', 'do_prepare_recipe_sysroot', 'do_configure', 'do_compile', 'do_install', 'do_populate_sysroot', 'do_build', 'do_package', 'do_packagedata', 'do_package_qa',
         'do_package_write_rpm', 'do_package_write_ipk', 'do_rootfs', 'do_image', 'do_image_complete', 'do_deploy', 'do_clean', 'do_cleanall', 'do_cleansstate', 'do_listtasks', 'do_devshell', 'do_menuconfig',
         'do_populate_lic', 'do_rm_work', 'do_testimage', 'do_validate_branches', 'do_kernel_metadata', 'do_sizecheck', 'do_strip', 'do_compile_ptest', 'do_install_ptest_base', 'do_create_spdx', 'do_cve_check',
         'autotools_do_configure', 'cmake_do_configure', 'base_do_fetch', 'pkg_preinst', 'pkg_x', 'oe_soinstall', 'main', 'install', 'do_python', 'do_fakeroot', 'do_export', 'do_unset', 'do_inherit', 'do_addtask']
CLASSES = ['autotools', 'autotools-brokensep', 'cmake', 'meson', 'pkgconfig', 'native', 'nativesdk', 'cross', 'crosssdk', 'cross-canadian', 'systemd', 'update-rc.d', 'update-alternatives', 'useradd', 'extrausers',
           'allarch', 'ptest', 'kernel', 'module', 'core-image', 'image', 'packagegroup', 'features_check', 'distro_features_check', 'python3native', 'setuptools3', 'python_setuptools_build_meta', 'pypi',
           'cargo', 'go-mod', 'npm', 'github-releases', 'gettext', 'gtk-doc', 'gobject-introspection', 'texinfo', 'lib_package', 'deploy', 'nopackages', 'testimage', 'rm_work', 'icecc', 'externalsrc',
           'bin_package', 'manpages', 'bash-completion', 'qemu', 'siteinfo', 'license', 'base', 'sanity', 'buildhistory', 'image-buildinfo', 'create-spdx-2.2', 'cve-check']


def check(cond, msg):
    if not cond:
        raise Violation(msg)


def same(what, got, want):
    if got != want:
        raise Violation(f'{what}: got {short(got)}, expected {short(want)}')


def short(x, n=700):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...'


def norm(v):
    """a comparable, order independent form of an attribute value"""
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted(map(str, v)))
    if isinstance(v, dict):
        return tuple((k, norm(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    return v


def attrs(item, root=None, skip=()):
    """every public attribute of an item"""
    d = {k: norm(v) for k, v in item.GetAttributes().items() if k not in skip}
    if root:
        for k in list(d):
            d[k] = rel(d[k], root)
    return d


def rel(v, root):
    """drop the scratch directory from a value"""
    if isinstance(v, str):
        return v.replace(root + '/', '').replace(root, '.')
    if isinstance(v, tuple):
        return tuple(rel(x, root) for x in v)
    return v


def snap(item, root=None, skip=()):
    """canonical form of an item"""
    return (type(item).__name__,) + tuple(sorted(attrs(item, root, skip).items(), key=lambda x: x[0]))


def methods(item):
    """answers of the argument-less public methods of an item"""
    res = {}
    for n in ('get_items', 'AppendOperation', 'IsAppend', 'IsMultiLine', 'GetDistroEntry', 'GetMachineEntry',
              'GetClassOverride', 'IsImmediateModify', 'IsFromAppend', 'get_items_unaliased'):
        f = getattr(item, n, None)
        if callable(f):
            res[n] = norm(f())
    return res


def words_upto(alphabet, n, start=0):
    """all sequences over alphabet, by length"""
    for k in range(start, n + 1):
        yield from itertools.product(alphabet, repeat=k)


def idx(items):
    """identity list"""
    return [id(x) for x in items]


def only(items, cls):
    return [x for x in items if type(x).__name__ == cls]


def base(p):
    return os.path.basename(p)


CLASSIFIERS = ['Variable', 'Comment', 'Include', 'Export', 'Function', 'PythonBlock', 'FlagAssignment', 'FunctionExports',
               'TaskAdd', 'TaskDel', 'AddPylib', 'AddFragements', 'IncludeAll', 'Inherit', 'Unset', 'Item']


def queries(st, files, ids, terms=('${PN}-${PV} ${A}',), names=('foo-dev', 'foo-x-y')):
    """every query of a stash as (name, thunk); items are reported through ids()"""
    res = []

    def q(name, f):
        res.append((name, f))

    q('recipes', lambda: list(st.GetRecipes()))
    q('lone', lambda: list(st.GetLoneAppends()))
    q('conf', lambda: list(st.GetConfFiles()))
    q('classes', lambda: list(st.GetBBClasses()))
    q('items', lambda: ids(st.GetItemsFor()))
    q('items:Variable', lambda: ids(st.GetItemsFor(classifier='Variable')))
    q('items:A', lambda: ids(st.GetItemsFor(classifier='Variable', attribute='VarName', attributeValue='A')))
    for f in files:
        q(f'items({f})', lambda f=f: ids(st.GetItemsFor(filename=f)))
        q(f'items({f},nolink)', lambda f=f: ids(st.GetItemsFor(filename=f, nolink=True)))
        q(f'items({f},Variable,A)', lambda f=f: ids(st.GetItemsFor(filename=f, classifier=['Variable', 'Unset'],
                                                                    attribute='VarName', attributeValue='A')))
        q(f'links({f})', lambda f=f: list(st.GetLinksForFile(f)))
        q(f'expand({f})', lambda f=f: st.ExpandVar(filename=f))
        q(f'expand({f},A)', lambda f=f: st.ExpandVar(filename=f, attribute='VarName', attributeValue='A', nolink=True))
        for t in terms:
            q(f'term({f},{t})', lambda f=f, t=t: st.ExpandTerm(f, t))
        q(f'packages({f})', lambda f=f: sorted(st.GetValidPackageNames(f)))
        q(f'packages({f},strip)', lambda f=f: sorted(st.GetValidPackageNames(f, strippn=True)))
        q(f'resources({f})', lambda f=f: sorted(st.GetValidNamedResources(f)))
        q(f'image({f})', lambda f=f: st.IsImage(f))
        q(f'packagegroup({f})', lambda f=f: st.IsPackageGroup(f))
        q(f'dynamic({f})', lambda f=f: sorted(st.GetPackagesDynamic(f)))
        for n in names:
            q(f'isdynamic({f},{n})', lambda f=f, n=n: st.IsDynamicPackage(f, n))
        q(f'files({f})', lambda f=f: list(st.GetFiles(f, '*')))
    q('expand()', lambda: st.ExpandVar())
    return res


def pure(st, f):
    """functions of the file name"""
    return {'layer': st.GetLayerRoot(f), 'pn': st.GuessRecipeName(f), 'bpn': st.GuessBaseRecipeName(f),
            'pv': st.GuessRecipeVersion(f)}
